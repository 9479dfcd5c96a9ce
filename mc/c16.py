"""
C16: exactly the documented names are valid for rules, grammars, imports, references.

Every string up to a length over an alphabet of all relevant characters is used as a
name of every kind, for new objects and by setting names, and compared with an
independent description of names.
"""
import itertools

from . import model

PROP = "C16"
SPECIAL = "+-:;,=|/\\()[]@#%!^&~$"
ALPHABET = ["a", "B", "7", "_", "\u00e9", "\u0416", ".", "*", " ", "\t", "\n", "<", ">",
            "{", "}", "'", "\"", "?", "`"] + list(SPECIAL)
FEW = ["a", ".", "*", " ", ";", "-", "<", "\n"]
FEWER = ["a", ".", "*", ";"]
PARTS_ = ["NULL", "VOID", "null", "NULLa", ".", "a", "*", " "]


def base(s, grammar=False):
    if not s:
        return False
    for c in s:
        if c.isalnum() or c == "_":
            continue
        if c not in SPECIAL or (grammar and c == ";"):
            return False
    return True


def qualified(s, grammar=False):
    return all([base(p, grammar) for p in s.split(".")])


def expected(kind, s):
    if kind == "rule":
        return base(s) and s not in ("NULL", "VOID")
    if kind == "grammar":
        return qualified(s, True) and s not in ("NULL", "VOID")
    if kind == "reference":
        return qualified(s)
    if s.endswith(".*"):
        return qualified(s[:-2])
    return "." in s and qualified(s)


def make(kind, s):
    import jsgf
    if kind == "rule":
        return jsgf.Rule(s, True, "a")
    if kind == "grammar":
        return jsgf.Grammar(s)
    if kind == "reference":
        return jsgf.NamedRuleRef(s)
    return jsgf.Import(s)


OLD = {"rule": "old", "grammar": "some.old", "reference": "g.old", "import": "g.old"}


def judge(res, case):
    import jsgf
    msgs = []
    for s in case["names"]:
        for kind in OLD:
            want = expected(kind, s)
            res.transitions += 1
            res.outcome("%s %s" % (kind, want))
            try:
                x = make(kind, s)
                got = True
            except jsgf.GrammarError:
                got = False
            if got != want:
                msgs.append("%r is %sa valid %s name" % (s, "" if got else "not ",
                                                         kind))
                continue
            if got and x.name != s:
                msgs.append("the name %r became %r" % (s, x.name))
            # A new name for something that has one.
            x = make(kind, OLD[kind])
            try:
                x.name = s
                got = True
            except jsgf.GrammarError:
                got = False
            if got != want or x.name != (s if want else OLD[kind]):
                msgs.append("setting the %s name %r: %s, %r" % (kind, s, got, x.name))
            if bool(x.valid(s)) != want and s == s.strip():
                msgs.append("valid(%r) of a %s is %s" % (s, kind, x.valid(s)))
            if want:
                msgs += parts(kind, s, x)
        if len(msgs) > 4:
            break
    res.states += len(case["names"])
    res.traces += 1
    return msgs


def parts(kind, s, x):
    """What is derived from names."""
    import jsgf
    msgs = []

    def check(what, got, want):
        if got != want:
            msgs.append("%s of the %s %r is %r instead of %r" % (what, kind, s, got,
                                                                 want))
    if kind == "import":
        head, last = s.rsplit(".", 1)
        check("grammar_name", x.grammar_name, head)
        check("rule_name", x.rule_name, last)
        check("wildcard_import", x.wildcard_import, last == "*")
        check("compile", x.compile(), "import <%s>;" % s)
        check("equality", (x == jsgf.Import(s), x == jsgf.Import(s + "x")
                           if last != "*" else False), (True, False))
    elif kind == "rule":
        check("compile", x.compile(), "public <%s> = a;" % s)
        g = jsgf.Grammar("com.p.g")
        g.add_rule(x)
        check("qualified names", (x.qualified_name, x.fully_qualified_name),
              ("g." + s, "com.p.g." + s))
        check("lookup", g.get_rule_from_name(s) is x, True)
        r = jsgf.Rule("zz", True, jsgf.NamedRuleRef(s))
        g.add_rule(r)
        check("reference", r.expansion.referenced_rule is x, True)
        check("match", r.matches("a"), True)
        check("dependent rules", [d.name for d in x.dependent_rules], ["zz"])
    elif kind == "reference":
        check("compile", x.compile(), "<%s>" % s)
    else:
        check("header", x.compile().split("\n")[1], "grammar %s;" % s)
        r = jsgf.Rule("r", True, "a")
        x.add_rule(r)
        check("qualified names", (r.qualified_name, r.fully_qualified_name),
              (s.split(".")[-1] + ".r", s + ".r"))
    return msgs


def chunked(names, n=300):
    names = [s for s in dict.fromkeys(names) if "//" not in s and "/*" not in s]
    for i in range(0, len(names), n):
        yield {"names": names[i:i + n]}


def strings(alphabet, lengths):
    for n in lengths:
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


def all_cases(ctx):
    return chunked(strings(ALPHABET, range(0, ctx.pick(3, 4))))


def few_cases(ctx):
    return chunked(strings(FEW, range(1, ctx.pick(5, 6))))


def fewer_cases(ctx):
    return chunked(strings(FEWER, range(1, ctx.pick(6, 8))))


def part_cases(ctx):
    return chunked(strings(PARTS_, range(1, ctx.pick(4, 5))))


def long_cases(ctx):
    names = []
    for n in range(1, ctx.pick(13, 40)):
        for sep in (".", "..", ";", "", "*", "_", "-", "NULL", ". "):
            for suffix in ("", ".*", ".", "*"):
                names += [sep.join(["a"] * n) + suffix, sep.join(["ab"] * n) + suffix]
        # A special character at each place of a long name.
        for c in list(SPECIAL) + [".", "*", " ", "<", u"\u00e9", "7", "."]:
            for m in range(n + 1):
                names.append("a" * m + c + "b" * (n - m))
                names.append("p.q." + "a" * m + c + "b" * (n - m))
    return chunked(names)


SPACES = [
    ("long names", judge, long_cases, "names of up to 12 (39) characters or parts with "
     "every character at every place"),
    ("all characters", judge, all_cases, "all strings of up to 2 (3) of %d characters"
     % len(ALPHABET)),
    ("some characters", judge, few_cases, "all strings of up to 4 (5) of %d characters"
     % len(FEW)),
    ("dots and wildcards", judge, fewer_cases, "all strings of up to 5 (7) of %d "
     "characters" % len(FEWER)),
    ("reserved names", judge, part_cases, "all strings of up to 3 (4) of %d parts"
     % len(PARTS_)),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "names are documented as Unicode alphanumerics, '_' and %s; grammar names have "
        "no ';'" % SPECIAL,
        "names that contain the start of a comment ('//' or '/*') are not judged",
        "references by name may be called NULL or VOID",
    ]
