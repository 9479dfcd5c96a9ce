"""
C03: the result of a match doesn't depend on what was matched before.

Every sequence of matching operations up to a depth is run on one set of real rules;
the outcome of each operation (result, match data, tags) is compared with that of the
same operation on newly made rules.
"""
import itertools

from . import c01, c02, model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C03"


def tagged(n, prefix="t"):
    """Add a different tag to every node of a tree."""
    def rec(x, path):
        return (x[0], x[1], tuple([rec(k, path + str(i))
                                   for i, k in enumerate(x[2])]), prefix + path)
    return rec(n, "")


def choose_speech(world, i, limit):
    """A few member strings, a prefix and an extension that don't match."""
    lang = model.Language(world)
    node = world[i][2]
    letters = model.words_of(node, world) or ["a"]
    members, others = [], []
    for words in model.speeches(letters, 3, max_foreign=0):
        if not words:
            continue
        (members if lang.accepts(node, words) else others).append(" ".join(words))
    out = members[:1] + members[-1:] + members[len(members) // 2:][:1] + others[:1]
    out += [m + " z" for m in members[-1:]]
    res = []
    for s in out:
        if s not in res:
            res.append(s)
    return res[:limit]


class Run(object):
    def __init__(self, world):
        self.world = world
        self.grammar, self.rules = model.build_world(world)
        self.trees = [c02.Tree(world, self.rules, i) for i in range(len(world))]

    def data(self, i):
        """All match data of a rule."""
        rule = self.rules[i]
        out = [rule.was_matched, tuple(rule.matched_tags)]
        for path, (n, e, shared) in sorted(self.trees[i].nodes.items(),
                                           key=lambda x: str(x[0])):
            sl = e.matching_slice
            item = [path, e.current_match,
                    None if sl is None else (sl.start, sl.stop)]
            if n[0] in ("R", "K"):
                item.append(e.repetitions_matched)
                for p, (_, x, _) in self.trees[i].nodes.items():
                    if len(p) > len(path) and p[:len(path)] == path:
                        item.append(tuple(e.get_expansion_matches(x)))
                        item.append(repr(e.get_expansion_slices(x)))
            out.append(tuple(item))
        return tuple(out)

    def do(self, op):
        """Do an operation and return what can be observed of it (or None)."""
        kind = op[0]
        if kind == "m":
            r = self.rules[op[1]].matches(op[2])
            return (r,) + self.data(op[1])
        if kind == "f":
            r = self.rules[op[1]].find_matching_part(op[2])
            return (r,) + self.data(op[1])
        if kind == "t":
            r = self.rules[op[1]].get_tags_matching(op[2])
            return (tuple(r),) + self.data(op[1])
        if kind == "g":
            r = self.grammar.find_matching_rules(op[1])
            return (tuple([x.name for x in r]),)
        if kind == "e":
            self.rules[op[1]].expansion.matches(op[2])
            return None
        if kind == "c":
            return (self.grammar.compile(),)
        if kind == "d":
            self.rules[op[1]].disable()
            return None
        if kind == "n":
            self.rules[op[1]].enable()
            return None
        raise ValueError(op)


def ops_of(world, limit):
    ops = []
    for i in range(len(world)):
        if not world[i][1]:
            continue
        for s in choose_speech(world, i, limit):
            ops.append(("m", i, s))
        sp = choose_speech(world, i, limit)
        ops.append(("f", i, "z " + sp[0]))
        ops.append(("f", i, "z"))
        ops.append(("e", i, sp[-1]))
        ops.append(("d", i))
        ops.append(("n", i))
    ops.append(("t", 0, sp[0]))
    ops.append(("g", sp[0]))
    ops.append(("c",))
    return ops


def judge(res, case):
    world = model.spec(case["world"])
    ops = ops_of(world, case["limit"])
    msgs = []
    fresh = {}
    res.states += 1
    seqs = [case["ops"]] if "ops" in case else itertools.product(
        ops, repeat=case["depth"])
    for seq in seqs:
        run = Run(world)
        active = [True] * len(world)
        for op in seq:
            op = tuple(op)
            if op[0] in "dn":
                active[op[1]] = op[0] == "n"
            got = run.do(op)
            res.transitions += 1
            if got is None:
                continue
            key = (op, tuple(active))
            if key not in fresh:
                f = Run(world)
                for i, a in enumerate(active):
                    if not a:
                        f.rules[i].disable()
                fresh[key] = f.do(op)
                res.traces += 1
            if got != fresh[key]:
                diff = [(x, y) for x, y in zip(got, fresh[key]) if x != y]
                msgs.append("%s: %s differs after %s: %s rather than %s" % (
                    model.show_world(world), op, seq, diff[0][0], diff[0][1]))
                if len(msgs) > 3:
                    return msgs
    for k in fresh:
        res.outcome("%s:%s" % (k[0][0], fresh[k][0] if k[0][0] in "m" else "..."))
    return msgs


def tree_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), N))
    for t in trees.up_to(ctx.pick(4, 5)):
        small = model.size(t) <= ctx.pick(3, 4)
        yield {"world": (("r", True, tagged(t)),), "limit": 4 if small else 3,
               "depth": 3 if small else 2}


def deep_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b")))
    for t in trees.up_to(ctx.pick(3, 4)):
        yield {"world": (("r", True, tagged(t)),), "limit": 2,
               "depth": ctx.pick(3, 4)}


def repeat_cases(ctx):
    c = L("c")
    for t in model.Trees(leaves=(L("a"), L("b"))).up_to(3, symmetry=False):
        for w in (R(S(t, O(c))), K(S(O(c), t)), S(O(c), R(t)), R(S(R(t), O(c))),
                  A(R(t), S(t, c)), S(O(S(t, c)), c), S(K(S(t, c)), c)):
            yield {"world": (("r", True, tagged(w)),), "limit": 5, "depth": 2}


def reference_cases(ctx):
    c = L("c")
    for kind in (F, Q):
        x = kind(1)
        for m in (x, O(x), R(x), K(x), S(c, x), S(O(x), c), A(x, c), S(x, O(x)),
                  S(O(S(x, c)), L("b")), R(S(x, O(c))), S(K(S(x, c)), L("b"))):
            for b in (L("a"), O(L("a")), R(L("a")), S(L("a"), L("b")),
                      A(L("a"), S(L("a"), L("b"))), K(L("a"))):
                w = (("m", True, tagged(m, "m")), ("x", True, tagged(b, "x")))
                yield {"world": w, "limit": ctx.pick(2, 4), "depth": 2}
        # A rule referenced by two others and a chain.
        for b in (L("a"), O(L("a")), S(L("a"), O(c))):
            yield {"world": (("m", True, S(x, O(L("d")))), ("x", False, tagged(b)),
                             ("y", True, S(O(L("b")), x))),
                   "limit": 2, "depth": ctx.pick(2, 3)}
            yield {"world": (("m", True, R(kind(1))), ("y", True, O(kind(2))),
                             ("x", False, tagged(b))), "limit": 2, "depth": 2}


SPACES = [
    ("trees", tree_cases, "all sequences of 3 (larger trees: 2) operations"),
    ("deep", deep_cases, "all sequences over few speech strings to a larger depth"),
    ("repeats", repeat_cases, "pairs of operations for repeats and partial matches"),
    ("references", reference_cases, "pairs of operations on rules that reference "
     "each other"),
]
PARTS = dict([(s[0], judge) for s in SPACES])


def run(ctx):
    for name, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), judge, bound)
    ctx.assumptions = [
        "speech strings per rule are a selection of members, prefixes and extensions",
    ]
