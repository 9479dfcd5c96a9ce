"""
C17: references and imports find exactly the rules they name.

Small worlds of grammar files are written to a scratch directory; every set of imports,
every history of adding and removing imports and every name is looked up, matched and
compared with a resolver of the JSGF name rules.
"""
import itertools
import os
import shutil
import tempfile

from . import model

PROP = "C17"

# name: (imports, [(rule, public, text)]). Each text names the rule uniquely.
FILES = {
    "p.g": (["q.g.u"], [("r", True, "pgr"), ("s", False, "pgs"),
                        ("t", True, "pgt <s> <u>"), ("w", True, "pgw [<p.h.r>]")]),
    "q.g": ([], [("r", True, "qgr"), ("u", True, "qgu <v>"), ("v", False, "qgv"),
                 ("s", True, "qgs")]),
    "p.h": (["p.g.*"], [("r", True, "phr"), ("x", True, "phx <t>")]),
    # Its rule has the name of another grammar, p.g.
    "p": ([], [("g", True, "pg"), ("r", True, "pr")]),
    "h": ([], [("r", True, "hr"), ("y", True, "hy")]),
    "one": (["two.b"], [("a", True, "onea"), ("c", True, "onec <b>")]),
    "two": (["one.a"], [("b", True, "twob <a>")]),
}
IMPORTS = ["p.g.r", "p.g.*", "q.g.r", "q.g.*", "p.h.r", "h.r", "h.*", "p.g", "p.*",
           "p.g.t", "p.h.*", "one.c", "two.*"]
BAD_IMPORTS = ["p.g.s", "p.g.zz", "no.where", "no.*"]
NAMES = ["r", "s", "t", "u", "v", "w", "x", "y", "g", "a", "b", "c", "l",
         "g.r", "g.s", "g.t", "h.r", "p.r", "p.g", "h.y", "h.x", "one.a", "two.b",
         "p.g.r", "q.g.r", "p.h.r", "p.g.s", "q.g.s", "p.g.v", "p.h.x", "z.g.r",
         "p.g.t", "x.h.r", "no.where", "main.l", "p.one.a"]


def public(name):
    return [r for r, v, _ in FILES[name][1] if v]


class Resolver(object):
    """Names of rules to (grammar, rule) or None if that is an error."""

    def __init__(self, main, local, imports):
        self.grammars = dict(FILES)
        self.grammars[main] = (imports, local)
        self.main = main

    def imported(self, g):
        """The rules imported by a grammar or None."""
        out = []
        for i in self.grammars[g][0]:
            head, last = i.rsplit(".", 1)
            if head not in self.grammars:
                return None
            names = [r for r, v, _ in self.grammars[head][1] if v]
            if last != "*" and last not in names:
                return None
            for n in names:
                if last in ("*", n) and (head, n) not in out:
                    out.append((head, n))
        return out

    def lookup(self, g, name):
        if name in [r for r, _, _ in self.grammars[g][1]]:
            return (g, name)
        imported = self.imported(g)
        if imported is None:
            return None
        if "." not in name:
            found = [x for x in imported if x[1] == name]
            return found[0] if len(found) == 1 else None
        head, last = name.rsplit(".", 1)
        if "." not in head:
            found = [x for x in imported if x[0].split(".")[-1] == head and
                     x[1] == last]
            if len(found) == 1:
                return found[0]
            if found:
                return None
        if head in self.grammars and last in [
                r for r, v, _ in self.grammars[head][1] if v]:
            return (head, last)
        return None

    def speech(self, g, name, depth=0):
        """The longest text of a rule or None if a reference is an error."""
        text = [t for r, _, t in self.grammars[g][1] if r == name][0]
        out = []
        for w in text.split():
            w = w.strip("[]")
            if w.startswith("<"):
                x = self.lookup(g, w[1:-1])
                if x is None:
                    return None
                w = self.speech(x[0], x[1], depth + 1)
                if w is None:
                    return None
            out.append(w)
        return " ".join(out)


def file_text(name, imports, rules):
    out = ["#JSGF V1.0;", "grammar %s;" % name]
    out += ["import <%s>;" % i for i in imports]
    out += ["%s<%s> = %s;" % ("public " if v else "", r, t) for r, v, t in rules]
    return "\n".join(out) + "\n"


class Scratch(object):
    """A scratch directory with grammar files that is the working directory."""

    def __init__(self, layout="flat", files=FILES, ext=".jsgf"):
        self.files, self.layout, self.ext = files, layout, ext

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="c17-")
        os.chdir(self.dir)
        for i, (name, (imports, rules)) in enumerate(sorted(self.files.items())):
            flat = self.layout == "flat" or self.layout == "mixed" and i % 2
            self.write(name, imports, rules, flat)
        return self

    def write(self, name, imports, rules, flat=True, ext=None):
        path = name if flat else os.path.join(*name.split("."))
        if os.path.dirname(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + (ext or self.ext), "w") as f:
            f.write(file_text(name, imports, rules))

    def __exit__(self, *args):
        os.chdir(self.old)
        shutil.rmtree(self.dir)


def identity(rule):
    return (rule.grammar.name, rule.name)


def find(g, name):
    import jsgf
    try:
        return g.get_rule_from_name(name)
    except (jsgf.GrammarError, jsgf.JSGFImportError):
        return None


def make_main(local, imports, name="main"):
    import jsgf
    g = jsgf.Grammar(name)
    g.add_imports(*[jsgf.Import(i) for i in imports])
    for r, v, t in local:
        g.add_rule(jsgf.Rule(r, v, jsgf.parse_expansion_string(t)))
    return g


LOCAL = [("l", True, "local"), ("k", False, "hidden")]


def check_names(res, g, resolver, names, msgs, what, match=False):
    import jsgf
    for name in names:
        want = resolver.lookup(resolver.main, name)
        rule = find(g, name)
        got = identity(rule) if rule is not None else None
        res.transitions += 1
        res.outcome("found" if want else "error")
        if got != want:
            msgs.append("%s: %r is %s instead of %s" % (what, name, got, want))
            continue
        if rule is not None and find(g, name) is not rule:
            msgs.append("%s: %r is another object the second time" % (what, name))
        if rule is None or not match:
            continue
        texts = [t for r, _, t in resolver.grammars[want[0]][1] if r == want[1]]
        if want[0] != resolver.main and rule.expansion != \
                jsgf.parse_expansion_string(texts[0]):
            msgs.append("%s: %r is %s" % (what, name, rule))
        speech = resolver.speech(*want)
        ref = jsgf.PublicRule("ref", jsgf.Sequence(jsgf.NamedRuleRef(name), "end"))
        g.add_rule(ref)
        # A reference to a rule of a rule that can't be found is an error.
        try:
            found = [r.name for r in g.find_matching_rules(
                "%s end" % (speech or "nothing"))]
        except (jsgf.GrammarError, jsgf.JSGFImportError):
            found = None
        if speech is None and found is not None or speech and found != ["ref"]:
            msgs.append("%s: <%s> end matches %r: %s" % (what, name, speech, found))
        elif speech:
            if ref.expansion.children[0].current_match != speech:
                msgs.append("%s: <%s> matched %r" % (
                    what, name, ref.expansion.children[0].current_match))
            if ref.expansion.children[0].referenced_rule is not rule:
                msgs.append("%s: <%s> references another rule" % (what, name))
            if g.find_matching_rules("nothing end"):
                msgs.append("%s: <%s> matches anything" % (what, name))
        g.remove_rule(ref)
    return msgs


def judge_sets(res, case):
    imports = case["imports"]
    msgs = []
    with Scratch(case["layout"]):
        for local in (LOCAL, LOCAL + [("r", False, "localr")]):
            resolver = Resolver("main", local, imports)
            for names in (NAMES, NAMES[::-1]):
                g = make_main(local, imports)
                check_names(res, g, resolver, names, msgs, "imports %s" % imports,
                            match=names is NAMES and len(imports) < 3)
                if len(msgs) > 4:
                    return msgs
            # Each name first.
            if len(imports) < 2:
                for n in NAMES:
                    g = make_main(local, imports)
                    check_names(res, g, resolver, [n], msgs, "imports %s" % imports,
                                match=True)
    res.states += 1
    res.traces += 1
    return msgs


def judge_environment(res, case):
    """resolve_imports() and its dictionary."""
    import jsgf
    imports = case["imports"]
    msgs = []
    with Scratch("directories"):
        resolver = Resolver("main", LOCAL, imports)
        want = resolver.imported("main")
        for memo in (None, {}):
            g = make_main(LOCAL, imports)
            try:
                got = g.resolve_imports(memo) if memo is not None else \
                    g.resolve_imports()
            except (jsgf.GrammarError, jsgf.JSGFImportError):
                got = None
            res.transitions += 1
            what = "imports %s" % imports
            if (got is None) != (want is None):
                msgs.append("%s: %s instead of %s" % (what, got, want))
                continue
            if got is None:
                continue
            if memo is not None and got is not memo:
                msgs.append("%s: another dictionary is returned" % what)
            for env in (got, g.import_environment):
                for head, name in want:
                    rule = env.get("%s.%s" % (head, name))
                    if not isinstance(rule, jsgf.Rule) or identity(rule) != \
                            (head, name):
                        msgs.append("%s: %s.%s is %s" % (what, head, name, rule))
                for i in imports:
                    if i.endswith(".*") and [r.name for r in env[i]] != \
                            public(i[:-2]):
                        msgs.append("%s: %s is %s" % (what, i, env[i]))
            if g.import_environment.get("main") is not g and \
                    "main" not in [h for h, _ in want]:
                msgs.append("%s: the grammar isn't in its environment" % what)
            # Once more: the same objects.
            again = g.resolve_imports()
            for k, v in got.items():
                if again.get(k) is not v and not isinstance(v, list):
                    msgs.append("%s: %s was resolved again" % (what, k))
    res.states += 1
    res.traces += 1
    return msgs


def judge_single(res, case):
    """Import.resolve() for all names, layouts and file extensions."""
    import jsgf
    msgs = []
    files = {"p.g": FILES["p.g"], "h": FILES["h"]}
    exts = [".jsgf", ".jgram", ".other"]
    with Scratch(case["layout"], files={}):
        s = Scratch()
        for name, (imports, rules) in files.items():
            for ext in case["present"]:
                # The text tells which file it was.
                s.write(name, imports, [(r, v, "%s %s" % (ext[1:], r))
                                        for r, v, t in rules],
                        case["layout"] == "flat", ext)
        for given in [None] + [list(p) for n in range(4)
                               for p in itertools.permutations(exts, n)]:
            for dots in (True, False):
                order = [".jsgf", ".jgram"] if given is None else given
                usable = [e for e in order if e in case["present"]]
                if given is not None and not dots:
                    given_ = [e[1:] for e in given]
                else:
                    given_ = given
                for name in ("p.g.r", "p.g.s", "p.g.*", "h.*", "h.y", "h.zz", "q.r"):
                    head, last = name.rsplit(".", 1)
                    want = None
                    if usable and head in files:
                        ns = [r for r, v, t in files[head][1] if v]
                        if last == "*":
                            want = [(head, n, usable[0][1:] + " " + n) for n in ns]
                        elif last in ns:
                            want = [(head, last, usable[0][1:] + " " + last)]
                    memo = {}
                    for i in range(2):
                        try:
                            got = jsgf.Import(name).resolve(memo, given_)
                            if (last == "*") != isinstance(got, list):
                                msgs.append("%s is %s" % (name, got))
                            got = got if isinstance(got, list) else [got]
                            got = [identity(r) + (r.expansion.text,) for r in got]
                        except jsgf.JSGFImportError:
                            got = None
                        res.transitions += 1
                        if got != want:
                            msgs.append("%s with %s of %s is %s instead of %s" % (
                                name, given_, case["present"], got, want))
                    # The same for grammars with the import.
                    g = jsgf.Grammar("main")
                    g.add_import(jsgf.Import(name))
                    try:
                        env = g.resolve_imports(None, given_)
                        got = [identity(r) + (r.expansion.text,)
                               for r in [g.get_rule(w[1]) for w in want or ()]]
                        if [env.get("%s.%s" % w[:2]) for w in want or ()] != \
                                [g.get_rule(w[1]) for w in want or ()]:
                            msgs.append("%s: the environment has other rules" % name)
                    except jsgf.JSGFImportError:
                        got = None
                    res.transitions += 1
                    if got != want:
                        msgs.append("resolve_imports(): %s with %s of %s is %s instead "
                                    "of %s" % (name, given_, case["present"], got, want))
                if len(msgs) > 4:
                    return msgs
    res.states += 1
    res.traces += 1
    res.outcome(str(case["present"]))
    return msgs


def judge_history(res, case):
    """Add and remove imports and look names up in between."""
    import jsgf
    msgs = []
    pool = case["pool"]
    ops = [("add", i) for i in pool] + [("remove", i) for i in pool] + \
        [("local",), ("remove local",)]
    with Scratch("mixed"):
        for seq in itertools.product(ops, repeat=case["depth"]):
            imports = list(case["first"])
            local = list(LOCAL)
            g = make_main(local, imports)
            check_names(res, g, Resolver("main", local, imports), case["names"], msgs,
                        "imports %s" % imports)
            for k, op in enumerate(seq):
                if op[0] == "add":
                    g.add_import(jsgf.Import(op[1]))
                    if op[1] not in imports:
                        imports.append(op[1])
                elif op[0] == "remove":
                    if op[1] not in imports:
                        break
                    g.remove_import(jsgf.Import(op[1]))
                    imports.remove(op[1])
                elif op[0] == "local":
                    if len(local) > 2:
                        break
                    local.append(("r", True, "localr"))
                    g.add_rule(jsgf.PublicRule("r", "localr"))
                else:
                    if len(local) == 2:
                        break
                    local.pop()
                    g.remove_rule("r", ignore_dependent=True)
                resolver = Resolver("main", local, imports)
                if k == len(seq) - 1 or case["between"]:
                    check_names(res, g, resolver, case["names"], msgs,
                                "%s then %s" % (case["first"], seq[:k + 1]))
                if len(msgs) > 4:
                    return msgs
    res.states += 1
    res.traces += 1
    return msgs


def judge_faults(res, case):
    """Files that are missing or malformed, and are repaired afterwards."""
    import jsgf
    imports = case["imports"]
    bad = case["bad"]
    msgs = []
    with Scratch("flat") as s:
        text = {"empty": "", "malformed": "#JSGF V1.0;\ngrammar %s;\npublic <r> = (;\n"
                % bad, "no header": "public <r> = a;", "other": None}[case["fault"]]
        path = bad + ".jsgf"
        if text is None:
            os.unlink(path)
        else:
            with open(path, "w") as f:
                f.write(text)
        g = make_main(LOCAL, imports)
        for name in case["names"]:
            try:
                rule = g.get_rule_from_name(name)
            except Exception as e:
                rule = None
            needed = [i.rsplit(".", 1)[0] for i in imports]
            if name == "l":
                if rule is None:
                    msgs.append("local rules can't be found")
            elif bad in needed and rule is not None:
                msgs.append("%s found with the file of %s being %s" % (
                    name, bad, case["fault"]))
            res.transitions += 1
        s.write(bad, *FILES[bad])
        check_names(res, g, Resolver("main", LOCAL, imports), case["names"], msgs,
                    "imports %s after repairing %s" % (imports, bad), match=True)
    res.states += 1
    res.traces += 1
    res.outcome(case["fault"])
    return msgs


# Spaces.

def set_cases(ctx):
    pool = IMPORTS + BAD_IMPORTS
    layouts = ("flat", "directories", "mixed")
    k = 0
    for n in range(ctx.pick(3, 4)):
        for c in itertools.permutations(pool, n) if n < 3 else \
                itertools.combinations(pool, n):
            k += 1
            yield {"imports": list(c), "layout": layouts[k % 3]}


def environment_cases(ctx):
    pool = IMPORTS + BAD_IMPORTS
    for n in range(ctx.pick(3, 4)):
        for c in itertools.permutations(pool, n) if n < 3 else \
                itertools.combinations(pool, n):
            # Rules and grammars with the same full name replace each other.
            if "p.g" in c or "p.*" in c:
                continue
            yield {"imports": list(c)}


def single_cases(ctx):
    exts = [".jsgf", ".jgram", ".other"]
    for n in range(4):
        for present in itertools.combinations(exts, n):
            for layout in ("flat", "directories"):
                yield {"present": list(present), "layout": layout}


def history_cases(ctx):
    names = ["r", "t", "s", "g.r", "p.g.r", "q.g.r", "h.r", "l", "z.g.r"]
    for pool in (["p.g.*", "q.g.r", "h.r"], ["p.g.r", "p.g.*", "p.h.r"],
                 ["h.*", "p.h.r", "q.g.*"], ["p.g.s", "p.g.r", "h.r"]):
        for first in [[]] + [[i] for i in pool]:
            for between in (True, False):
                yield {"pool": pool, "first": first, "between": between,
                       "names": names, "depth": ctx.pick(2, 3)}


def fault_cases(ctx):
    for imports in ([], ["p.g.r"], ["p.g.*"], ["q.g.r", "p.g.t"], ["h.r", "p.g.*"]):
        for bad in ("p.g", "q.g", "h"):
            for fault in ("empty", "malformed", "no header", "other"):
                yield {"imports": imports, "bad": bad, "fault": fault,
                       "names": ["l", "r", "p.g.r", "p.g.t", "h.r", "q.g.u", "t"]}


SPACES = [
    ("import sets", judge_sets, set_cases, "all sets of up to 2 (3) of 17 imports in "
     "any order, all of %d names, 2 orders, 3 file layouts" % len(NAMES)),
    ("environments", judge_environment, environment_cases, "all sets of up to 2 (3) "
     "imports"),
    ("single imports", judge_single, single_cases, "all file extensions present and "
     "given, in all orders"),
    ("histories", judge_history, history_cases, "all sequences of adding and removing "
     "imports and rules with names looked up in between"),
    ("faults", judge_faults, fault_cases, "missing and malformed files that are "
     "repaired"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "grammars have the names of their files",
        "files don't change after they have been imported",
        "private rules of the own grammar are not referenced by qualified names",
        "any of the documented errors is accepted where a name can't be found",
    ]
