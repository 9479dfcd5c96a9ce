"""
C10: malformed text is rejected with the documented errors, and nothing else happens.

Every mutation of sample grammars (and every short string of tokens) is parsed.
"""
import itertools
import os
import re
import shutil
import tempfile

from . import model
from .c08 import norm

PROP = "C10"

HEADER = "#JSGF V1.0;\ngrammar g;\n"
SAMPLES = [
    "#JSGF V1.0;\ngrammar g;\n<r> = a;\n",
    "#JSGF V1.0 UTF-8 en;\ngrammar p.g;\nimport <p.q>;\nimport <p.*>;\n"
    "public <r> = a;\n",
    HEADER + "public <r> = a [b] (c|d)+ {t};\n<s> = <r>* b;\n",
    HEADER + "<r> = /1/ a | /0.5/ (b c) {t\\}};\n",
    HEADER + "<r> = <NULL> | (<x> <VOID>)*;\n// c\n/* d */\n",
]
CHARS = list("a 1;<>()[]{}|/*+.=#\\\"-\n_") + [u"\u00e9"]
TOKENS = ["#JSGF", "V1.0", ";", "grammar", "g", "import", "<", ">", "p.q", "public",
          "<r>", "=", "a", "|", "(", ")", "{", "}", "/", "1", "//", "/*", "*", "NULL"]


def outcome(parse, text):
    import jsgf
    from pyparsing import ParseException
    try:
        return "parsed", parse(text)
    except ParseException:
        return "ParseException", None
    except jsgf.GrammarError:
        return "GrammarError", None
    except TypeError as e:
        if re.search(r"/\s*-", text):
            return "TypeError", None        # negative weights
        return "unexpected %r" % e, None
    except RecursionError:
        return "unexpected RecursionError", None
    except Exception as e:
        return "unexpected %r" % e, None


def contents(g):
    return [g.name, g.jsgf_header, g.import_names,
            [(r.name, r.visible, r.active, r.grammar is g,
              norm(model.read(r.expansion))) for r in g.rules]]


# The outline of valid grammars without comments. Names and the text of rules are judged
# elsewhere.
END = r"\s*[;\n]\s*(?:;\s*)*"
OUTLINE = re.compile(
    r"\s*\#JSGF\s*[vV](?:\d+\.?\d*|\.\d+)(?:\s*[\w\-']+){0,2}" + END +
    r"grammar\s*[^\s;{}<>*\"]+" + END +
    r"(?:import\s*<\s*[^\s<>{}*]+(?:\.\*)?\s*>" + END + r")*"
    r"(?:(?:public\s*)?<\s*[^\s<>{}*]+\s*>\s*=\s*(?![;=>*+|)}\].])"
    r"(?:<[^<>]*>|[^;=\"#<>])+" + END + r")+",
    re.UNICODE | re.IGNORECASE)


def check(res, text, msgs, deep=True):
    import jsgf
    res.transitions += 1
    kind, g = outcome(jsgf.parse_grammar_string, text)
    res.outcome(kind if not kind.startswith("unexpected") else "unexpected")
    if kind.startswith("unexpected"):
        msgs.append("%r: %s" % (text, kind))
    if not deep:
        return
    valid = outcome(jsgf.valid_grammar, text)
    if valid != ("parsed", kind == "parsed"):
        msgs.append("%r: valid_grammar: %s, %r, but parsing it: %s" % (
            (text,) + valid + (kind,)))
    if kind != "parsed":
        return

    if not re.search(r"//|/\*", text) and not OUTLINE.fullmatch(text):
        msgs.append("%r: was parsed" % text)

    # The grammar that was parsed can be used.
    again = jsgf.parse_grammar_string(text)
    if contents(again) != contents(g):
        msgs.append("%r: was parsed differently" % text)
    names = g.rule_names
    if not names or len(set(names)) != len(names) or not all(
            [jsgf.Rule.valid(n) for n in names]) or not jsgf.Grammar.valid(g.name):
        msgs.append("%r: bad names %r in %r" % (text, names, g.name))
    try:
        compiled = g.compile()
    except jsgf.GrammarError as e:
        if "weight" not in str(e):      # not all alternatives have one
            msgs.append("%r: compile: %s" % (text, e))
        return
    kind, g2 = outcome(jsgf.parse_grammar_string, compiled)
    if kind != "parsed" or contents(g2) != contents(g):
        msgs.append("%r was parsed and compiled to %r, which is different" % (
            text, compiled))


def judge(res, case):
    msgs = []
    base = case["base"]
    res.states += 1
    i = case["i"]
    variants = [base[:i], base[:i] + base[i + 1:], base[i:]]
    variants += [base[:i] + c + base[i:] for c in CHARS]
    variants += [base[:i] + c + base[i + 1:] for c in CHARS]
    variants += [base[:i] + base[i + 1:i + 2] + base[i:i + 1] + base[i + 2:]]
    for n in (2, 3, 5, 8):
        variants.append(base[:i] + base[i + n:])
        variants.append(base[:i + n] + base[i:])
    if case["two"] is not None:
        j = case["two"]
        variants = [v[:j] + c + v[j + d:] for v in variants
                    for c, d in (("", 1), (";", 0), ("<", 0), ("(", 0), ("|", 1),
                                 ("{", 0), ("/", 0), ("a", 1))]
    for v in sorted(set(variants)):
        check(res, v, msgs)
        if len(msgs) > 5:
            break
    return msgs


def mutation_cases(ctx):
    for base in SAMPLES:
        for i in range(len(base) + 1):
            yield {"base": base, "i": i, "two": None}


def two_cases(ctx):
    for n, base in enumerate(SAMPLES):
        for i in range(11, len(base), 1 if not ctx.quick else 13):
            for j in range(i + 1, len(base), 1 if not ctx.quick else 6):
                if ctx.quick and n not in (0, 2):
                    continue
                yield {"base": base, "i": i, "two": j}


def judge_tokens(res, case):
    msgs = []
    res.states += 1
    for tail in itertools.product(TOKENS, repeat=case["len"]):
        ts = [case["head"]] + list(tail)
        for prefix, suffix in (("", ""), (HEADER, ""), (HEADER + "<r> = ", ";"),
                               (HEADER, "<r> = a;")):
            check(res, prefix + " ".join(ts) + suffix, msgs)
        if len(msgs) > 5:
            break
    return msgs


def token_cases(ctx):
    for h in TOKENS:
        for k in range(ctx.pick(3, 4)):
            yield {"head": h, "len": k}


def judge_other(res, case):
    """The other parsers: rules, expansions and files."""
    import jsgf
    msgs = []
    res.states += 1
    folder = tempfile.mkdtemp(prefix="verif-c10-")
    path = os.path.join(folder, "g.jsgf")
    base = case["base"]
    rule = base[base.index("\n<" if "\n<" in base else "\npublic") + 1:]
    rule = rule[:rule.index(";") + 1]
    exp = rule[rule.index("=") + 1:-1].strip()
    try:
        for text, parse in ((rule, jsgf.parse_rule_string),
                            (exp, jsgf.parse_expansion_string)):
            for i in range(len(text) + 1):
                vs = [text[:i], text[:i] + text[i + 1:]]
                vs += [text[:i] + c + text[i + d:] for c in CHARS for d in (0, 1)]
                for v in sorted(set(vs)):
                    kind, x = outcome(parse, v)
                    res.outcome(kind[:16])
                    res.transitions += 1
                    if kind.startswith("unexpected"):
                        msgs.append("%r: %s" % (v, kind))
                    if kind == "parsed" and parse == jsgf.parse_rule_string:
                        # It is also a rule in a grammar.
                        k2, g = outcome(jsgf.parse_grammar_string, HEADER + v)
                        if k2 != "parsed" or g.rules[0].name != x.name or \
                                g.rules[0].visible != x.visible or \
                                norm(model.read(g.rules[0].expansion)) != \
                                norm(model.read(x.expansion)):
                            msgs.append("%r: parsed as a rule only" % v)
        variants = [base[:i] + base[i + 1:] for i in range(0, len(base))]
        lines = base.split("\n")
        for i in range(len(lines)):
            variants.append("\n".join(lines[:i] + lines[i + 1:]))
            for x in CHARS + TOKENS + ["", ";", "<s> = b", "<s> = b;", "// c", ");"]:
                variants.append("\n".join(lines[:i] + [x] + lines[i:]))
                variants.append("\n".join(lines[:i] + [lines[i] + x] +
                                          lines[i + 1:]))
        for v in sorted(set(variants)):
            with open(path, "w") as f:
                f.write(v)
            k1, g1 = outcome(jsgf.parse_grammar_string, v)
            k2, g2 = outcome(lambda _: jsgf.parse_grammar_file(path), v)
            res.transitions += 1
            if k1 != k2 or (g1 and contents(g1) != contents(g2)):
                msgs.append("%r: %s as a string and %s as a file" % (v, k1, k2))
    finally:
        shutil.rmtree(folder)
    return msgs


def other_cases(ctx):
    for base in SAMPLES:
        yield {"base": base}


def judge_headers(res, case):
    msgs = []
    res.states += 1
    for n in range(case["len"] + 1):
        for chars in itertools.product("V1.v e-", repeat=n):
            header = case["head"] + "".join(chars)
            check(res, "#JSGF" + header + ";\ngrammar g;\n<r> = a;\n", msgs)
        if len(msgs) > 5:
            break
    return msgs


def header_cases(ctx):
    for head in ("", " ", "V", " V", " v1", " V1.", " V.", " V1.0", " V1.0 e", " V1.0 e 1"):
        yield {"head": head, "len": ctx.pick(3, 5)}


SPACES = [
    ("headers", judge_headers, header_cases, "all headers of up to 3 (5) characters "
     "after 10 beginnings"),
    ("mutations", judge, mutation_cases, "all 1-character edits, truncations, "
     "deletions and repetitions of 5 grammars"),
    ("two mutations", judge, two_cases, "pairs of edits"),
    ("tokens", judge_tokens, token_cases, "all strings of up to 3 (4) of 24 tokens in "
     "4 places"),
    ("rules, expansions, files", judge_other, other_cases, "all 1-character edits"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), j, bound)
    ctx.assumptions = [
        "negative weights are allowed to raise a TypeError when parsed",
        "text that is nested or chained too deep for Python's stack is not judged",
    ]
