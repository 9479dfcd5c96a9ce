"""
C09: rule expansions are parsed by the documented syntax and precedence.

Every string of tokens up to a length is parsed and compared with an independent
recursive descent parser of the documented grammar.
"""
import itertools

from . import model
from .c08 import norm

PROP = "C09"

TOKENS = ["a", "b", "(", ")", "[", "]", "|", "*", "+", "<x>", "<NULL>", "{t}", "{u}",
          "/2/", "/0.5/", "/0/"]


class Invalid(Exception):
    pass


class Unspecified(Exception):
    """Weights are not given for all the alternatives, or for equal alternatives."""


class Reference(object):
    """
    exp = alt { '|' alt } ; alt = [ weight ] item { item } ;
    item = atom { '*' | '+' | tag } ; atom = words | ref | '(' exp ')' | '[' exp ']'
    """

    def __init__(self, tokens):
        self.tokens = list(tokens)
        self.i = 0

    def peek(self):
        return self.tokens[self.i] if self.i < len(self.tokens) else None

    def next(self):
        self.i += 1
        return self.tokens[self.i - 1]

    def parse(self):
        self.weights_ok = True
        e = self.exp()
        if self.peek() is not None:
            raise Invalid()
        if not self.weights_ok:
            raise Unspecified()
        return e

    def exp(self):
        alts, weights = [], []
        while True:
            w, e = self.alt()
            alts.append(e)
            weights.append(w)
            if self.peek() != "|":
                break
            self.next()
        if len(alts) == 1:
            if weights[0] is not None:
                raise Invalid()
            return alts[0]
        given = [w for w in weights if w is not None]
        if given and (len(given) != len(alts) or
                      len(set([untag(norm(a)) for a in alts])) != len(alts)):
            self.weights_ok = False
        return ("A", tuple(weights) if given else None, tuple(alts), "")

    def alt(self):
        w = None
        if self.peek() is not None and self.peek().startswith("/"):
            w = float(self.next().strip("/"))
        items = [self.item()]
        while self.peek() not in (None, "|", ")", "]"):
            items.append(self.item())
        return w, (items[0] if len(items) == 1 else ("S", None, tuple(items), ""))

    def item(self):
        e = self.atom()
        while self.peek() in ("*", "+") or (self.peek() or "").startswith("{"):
            t = self.next()
            if t == "*":
                e = model.K(e)
            elif t == "+":
                e = model.R(e)
            else:
                if e[0] in "RK" and not e[3] and e[2][0][0] != "G":
                    raise Invalid()     # repeats cannot be tagged like that
                if e[3]:
                    e = model.G(e)
                e = model.with_tag(e, t.strip("{}"))
        return e

    def atom(self):
        t = self.peek()
        if t is None:
            raise Invalid()
        if t[0].isalnum():
            ws = []
            while self.peek() is not None and self.peek()[0].isalnum():
                ws.append(self.next())
            return model.L(" ".join(ws))
        if t == "<NULL>":
            self.next()
            return model.N
        if t[0] == "<":
            self.next()
            return model.Q(t[1:-1])
        if t in "([":
            self.next()
            e = self.exp()
            if self.peek() != (")" if t == "(" else "]"):
                raise Invalid()
            self.next()
            return model.G(e) if t == "(" else model.O(e)
        raise Invalid()


def untag(n):
    while n[0] == "T":
        n = n[2]
    return tuple([untag(x) if isinstance(x, tuple) and x and isinstance(x[0], str)
                  else (tuple([untag(y) if isinstance(y, tuple) and y else y
                               for y in x]) if isinstance(x, tuple) else x)
                  for x in n])


def reference(tokens):
    try:
        return "valid", norm(Reference(tokens).parse())
    except Invalid:
        return "invalid", None
    except Unspecified:
        return "unspecified", None


def real(parse, text, get=lambda x: x):
    import jsgf
    from pyparsing import ParseException
    try:
        return "valid", norm(model.read(get(parse(text))))
    except ParseException:
        return "invalid", "ParseException"
    except jsgf.GrammarError as e:
        return "invalid", "GrammarError"


def tight(tokens):
    out = ""
    for t in tokens:
        if out and out[-1].isalnum() and t[0].isalnum():
            out += " "
        out += t
    return out


def judge(res, case):
    import jsgf
    msgs = []
    res.states += 1
    for tail in itertools.product(case["tokens"], repeat=case["len"]):
        tokens = list(case["head"]) + list(tail)
        want = reference(tokens)
        res.outcome(want[0])
        text = " ".join(tokens)
        forms = [(jsgf.parse_expansion_string, text, lambda x: x)]
        if case.get("forms"):
            forms += [
                (jsgf.parse_expansion_string, tight(tokens), lambda x: x),
                (jsgf.parse_expansion_string, "  %s\t\n" % "\n ".join(tokens),
                 lambda x: x),
                (jsgf.parse_rule_string, "<r> = %s;" % text, lambda x: x.expansion),
                (jsgf.parse_rule_string, "public <r>=%s ;" % tight(tokens),
                 lambda x: x.expansion),
            ]
        for parse, t, get in forms:
            got = real(parse, t, get)
            res.transitions += 1
            if want[0] == "unspecified":
                continue
            if got[0] != want[0] or (want[0] == "valid" and got != want):
                msgs.append("%r is %s: %r, was %s: %r" % (
                    t, want[0], want[1], got[0], got[1]))
        if len(msgs) > 5:
            break
    return msgs


def heads(tokens, n):
    for h in itertools.product(tokens, repeat=n):
        # The rest can't make these valid; only the shortest of them are judged.
        yield list(h)


def token_cases(ctx):
    for n in (1, 2):
        for h in heads(TOKENS, n):
            yield {"head": h, "tokens": TOKENS, "len": 0, "forms": True}
    for h in heads(TOKENS, 2):
        yield {"head": h, "tokens": TOKENS, "len": 1, "forms": True}
        yield {"head": h, "tokens": TOKENS, "len": 2, "forms": not ctx.quick}
    if not ctx.quick:
        for h in heads(TOKENS, 3):
            yield {"head": h, "tokens": TOKENS, "len": 2}


SMALL = [
    ["a", "(", ")", "|", "*", "{t}"],
    ["a", "|", "/2/", "(", ")", "b"],
    ["a", "[", "]", "+", "<x>", "|"],
    ["a", "(", ")", "{t}", "+", "{u}"],
    ["a", "b", "|", "/0/", "/1.25/", "<x>"],
]


def small_cases(ctx):
    for tokens in SMALL:
        for n in ctx.pick((5, 6), (5, 6, 7)):
            for h in heads(tokens, n - 4):
                if h[0] in ")]|*+{t}{u}":
                    continue    # can't be the start of an expansion
                yield {"head": h, "tokens": tokens, "len": 4}


def judge_valid(res, case):
    """Longer strings made by a grammar, with all ways to group and operate."""
    import jsgf
    msgs = []
    res.states += 1
    items = case["items"]
    for seps in itertools.product(("", "|"), repeat=len(items) - 1):
        for ops in itertools.product(case["ops"], repeat=len(items)):
            if all(ops) and len(case["wraps"]) == 2:
                continue
            for weights in (None, [1, 2, 3], [1, 0, 2], [0, 1, 0],
                            [3, 2, 0]) if "|" in seps else (None,):
                tokens = []
                for i, x in enumerate(items):
                    first = i == 0 or seps[i - 1] == "|"
                    if i and seps[i - 1]:
                        tokens.append("|")
                    if weights and first:
                        tokens.append("/%d/" % weights[i])
                    tokens.extend(x + ops[i])
                for wrap in case["wraps"]:
                    ts = list(wrap[:1]) + tokens + list(wrap[1:])
                    want = reference(ts)
                    got = real(jsgf.parse_expansion_string, " ".join(ts))
                    res.transitions += 1
                    res.outcome(want[0])
                    if want[0] != "unspecified" and (
                            got[0] != want[0] or (want[0] == "valid" and
                                                  got != want)):
                        msgs.append("%r is %s: %r, was %s: %r" % (
                            " ".join(ts), want[0], want[1], got[0], got[1]))
        if len(msgs) > 5:
            break
    return msgs


def valid_cases(ctx):
    atoms = [["a"], ["<x>"], ["(", "b", ")"], ["[", "c", "d", "]"],
             ["(", "d", "|", "e", "<x>", ")"],
             ["(", "/1/", "d", "|", "/2/", "e", "<x>", ")"],
             ["[", "d", "|", "e", "]"], ["(", "(", "f", ")", "g", ")"]]
    ops = [[], ["*"], ["{t}"]] if ctx.quick else [[], ["*"], ["{t}"], ["{t}", "+"],
                                                  ["{t}", "{u}"]]
    if ctx.quick:
        for items in itertools.combinations(atoms, 3):
            yield {"items": items, "ops": ops, "wraps": ["", "()"]}
    else:
        for items in itertools.product(atoms, repeat=3):
            yield {"items": items, "ops": ops, "wraps": ["", "()", "[]"]}


def judge_comments(res, case):
    """Comments can be put between any two tokens of rules, imports and the name."""
    import jsgf
    msgs = []
    tokens = case["tokens"]
    rule = ["public", "<", "r", ">", "="] + tokens + [";"]
    body = [["grammar", "g", ";"], ["import", "<", "p.q", ">", ";"], rule,
            ["<", "s", ">", "=", "z", ";"]]
    flat = sum(body, [])
    want = norm(model.read(jsgf.parse_expansion_string(" ".join(tokens))))
    for comment in ("/* c */", "// <c> = d;\n", "/** c\n * public <d> = (e;\n */",
                    "/**/"):
        for i in range(len(flat) + 1):
            for j in range(i, len(flat) + 1) if case["two"] else (i,):
                ts = flat[:i] + [comment] + flat[i:j] + \
                    ([comment] if j != i else []) + flat[j:]
                text = "#JSGF V1.0;\n" + " ".join(ts)
                res.transitions += 1
                g = jsgf.parse_grammar_string(text)
                got = [g.name, g.import_names, g.rule_names,
                       [r.visible for r in g.rules]]
                if got != ["g", ["p.q"], ["r", "s"], [True, False]] or \
                        norm(model.read(g.rules[0].expansion)) != want or \
                        norm(model.read(g.rules[1].expansion)) != ("L", "z"):
                    msgs.append("%r was parsed as %r" % (text, got))
                if not jsgf.valid_grammar(text):
                    msgs.append("%r is not valid" % text)
                if len(msgs) > 5:
                    return msgs
    res.states += 1
    res.outcome(len(tokens))
    return msgs


def comment_cases(ctx):
    for t in (["a"], ["a", "b"], ["a", "|", "b"], ["(", "a", ")", "*"],
              ["[", "a", "]", "{", "t", "}"],
              ["/2/", "a", "|", "/", "1", "/", "<", "x", ">"],
              ["<", "x", ">", "+", "a"]):
        yield {"tokens": t, "two": not ctx.quick}


SPACES = [
    ("token strings", judge, token_cases, "all strings of up to 4 (5) of 16 tokens"),
    ("longer token strings", judge, small_cases, "all strings of up to 6 (7) tokens "
     "out of 5 sets of 6 tokens"),
    ("alternatives of sequences", judge_valid, valid_cases, "3 items with all "
     "operators, separators, weights and outer groupings"),
    ("comments", judge_comments, comment_cases, "comments between any tokens"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), j, bound)
    ctx.assumptions = [
        "sets that only have weights for some of their alternatives are not judged",
        "words next to each other are one literal, to which operators apply",
    ]
