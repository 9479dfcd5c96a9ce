"""
C02: match data describes how the speech was matched.

After a successful match, the current_match and matching_slice values of every part of
the tree (and the repetition data of repeats) have to be those of a derivation of the
speech by the rule. All derivations are enumerated by the reference model. After a
failed match there is no match data at all.
"""
import itertools

from . import model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C02"
MAX_DERIVATIONS = 400


def strip_path(path):
    return tuple([0 if isinstance(p, tuple) else p for p in path])


def rep_parts(path):
    """(prefix, k) for each repetition in a path."""
    return [(path[:x], p[1]) for x, p in enumerate(path) if isinstance(p, tuple)]


def final_entries(entries):
    """Entries of the last repetition of each repeat, by path."""
    last = {}
    for path, i, j in entries:
        for prefix, k in rep_parts(path):
            last[prefix] = max(last.get(prefix, -1), k)
    out = {}
    for path, i, j in entries:
        if all([last[prefix] == k for prefix, k in rep_parts(path)]):
            out[strip_path(path)] = (i, j)
    return out


class Tree(object):
    """The real expansions of a world's rule by path, through references."""

    def __init__(self, world, rules, i):
        self.world = world
        self.rules = rules
        self.nodes = {}
        counts = {}

        def count(n):
            for _, x in model.walk(n):
                if x[0] in ("F", "Q"):
                    counts[x[1]] = counts.get(x[1], 0) + 1
                    count(world[x[1]][2])
        count(world[i][2])
        # Data of rules that are referenced several times is that of any reference.
        self.shared = set([k for k, v in counts.items() if v > 1])

        def add(n, e, path, shared):
            self.nodes[path] = (n, e, shared)
            for x, (k, c) in enumerate(zip(n[2], e.children)):
                add(k, c, path + (x,), shared)
            if n[0] in ("F", "Q"):
                add(world[n[1]][2], rules[n[1]].expansion, path + ("@",),
                    shared or n[1] in self.shared)
        add(world[i][2], rules[i].expansion, (), False)

    def repeats(self):
        """Repeats that are not in other repeats of the same tree."""
        for path, (n, e, shared) in self.nodes.items():
            if n[0] in ("R", "K") and not shared and not any(
                    [self.nodes[path[:x]][0][0] in ("R", "K")
                     for x in range(len(path))]):
                yield path, e


def text(words, i, j):
    return " ".join(words[i:j]).lower()


def offsets(speech, words):
    out, pos = [], 0
    for w in words:
        start = speech.index(w, pos)
        pos = start + len(w)
        out.append((start, pos))
    return out


def compare(tree, entries, words, speech, strict=True, joined=False):
    """The first difference between the real match data and a derivation's data."""
    final = final_entries(entries)
    offs = offsets(speech, words)
    for path, (n, e, shared) in tree.nodes.items():
        if shared:
            continue
        cur, sl = e.current_match, e.matching_slice
        span = final.get(path)
        where = "%s at %s" % (model.show(n), path)
        if span is not None and span[0] < span[1]:
            want = text(words, *span)
            if cur is None or cur.lower() != want:
                return "%s has current_match %r rather than %r" % (where, cur, want)
            if n[0] == "LC" and cur != " ".join(words[span[0]:span[1]]):
                return "%s has current_match %r in another case" % (where, cur)
            if sl is None or (sl.start, sl.stop) != (offs[span[0]][0],
                                                     offs[span[1] - 1][1]):
                return "%s has matching_slice %s rather than words %d to %d" % (
                    where, sl, span[0], span[1])
        else:
            if cur:
                return "%s has current_match %r but is not used" % (where, cur)
            up = final.get(path[:-1]) if path and path[-1] != "@" else (0, 1)
            unused = n[0] not in "FQ" and (up is None or up[0] == up[1])
            if sl is not None and ((unused and strict) or sl.start != sl.stop):
                return "%s has matching_slice %s but is not used" % (where, sl)
            if not joined and (
                    e.is_optional and n[0] not in ("V",) and cur != "" or
                    not e.is_optional and n[0] != "N" and cur is not None):
                return "%s has current_match %r although it's %s" % (
                    where, cur, "optional" if e.is_optional else "required")
    for path, e in tree.repeats():
        reps = {}
        for p, i, j in entries:
            if strip_path(p[:len(path)]) == path and len(p) > len(path) and \
                    not any([isinstance(x, tuple) for x in p[:len(path)]]):
                reps.setdefault(p[len(path)][1], []).append(
                    (p[len(path) + 1:], i, j))
        if e.repetitions_matched != len(reps):
            return "repeat at %s has %d repetitions rather than %d" % (
                path, e.repetitions_matched, len(reps))
        each = [final_entries(reps[k]) for k in sorted(reps)]
        for p, (n, x, shared) in tree.nodes.items():
            if shared or len(p) <= len(path) or p[:len(path)] != path:
                continue
            # The child's path is path + (0,).
            rel = p[len(path) + 1:]
            values = e.get_expansion_matches(x)
            slices = e.get_expansion_slices(x)
            if len(values) != len(reps) or len(slices) != len(reps):
                return "repeat at %s has %d values for %s and %d repetitions" % (
                    path, len(values), p, len(reps))
            for k, fin in enumerate(each):
                span = fin.get(rel)
                if span is not None and span[0] < span[1]:
                    want = text(words, *span)
                    sl = slices[k]
                    if (values[k] or "").lower() != want or sl is None or \
                            (sl.start, sl.stop) != (offs[span[0]][0],
                                                    offs[span[1] - 1][1]):
                        return "repetition %d of repeat at %s has %r, %s for %s " \
                            "rather than %r" % (k, path, values[k], sl, p, want)
                elif values[k]:
                    return "repetition %d of repeat at %s has %r for %s, which is " \
                        "not used" % (k, path, values[k], p)
    return None


def no_data(tree):
    for path, (n, e, _) in tree.nodes.items():
        if e.current_match or e.matching_slice is not None:
            return "%s at %s has data %r, %s" % (model.show(n), path,
                                                 e.current_match, e.matching_slice)
        if n[0] in ("R", "K") and e.repetitions_matched:
            return "%s at %s has repetitions" % (model.show(n), path)
    return None


FORMS = [" ".join, "   ".join]


def judge(res, case):
    world = model.spec(case["world"])
    i = case["i"]
    _, rules = model.build_world(world)
    rule, node = rules[i], world[i][2]
    lang = model.Language(world)
    tree = Tree(world, rules, i)
    letters = case.get("words") or model.words_of(node, world) or ["a"]
    res.states += 1
    msgs = []
    for words in model.large_speech(node) if case.get("large") else \
            model.speeches(letters, case["len"], max_foreign=case["foreign"]):
        if not words:
            continue
        for form in FORMS[:2 if case.get("forms") else 1]:
            speech = form(words)
            got = rule.matches(speech)
            res.transitions += 1
            if not got:
                bad = no_data(tree)
                if bad:
                    msgs.append("%s after failing to match %r: %s" % (
                        model.show_world(world), speech, bad))
                res.outcome("no match")
                continue
            bads = []
            count = 0
            for d in itertools.islice(
                    lang.derivations(node, words, 0, len(words)), MAX_DERIVATIONS):
                count += 1
                bad = compare(tree, d, words, speech)
                if bad is None:
                    break
                bads.append(bad)
            else:
                if count == MAX_DERIVATIONS:
                    res.outcome("too many derivations")
                    continue
                msgs.append("%s after matching %r: no derivation has this data, "
                            "e.g. %s" % (model.show_world(world), speech,
                                         bads[0] if bads else "(none)"))
            res.traces += 1
            res.outcome("match, %s derivation" % ("1st" if not bads else "other"))
    return msgs


def judge_part(res, case):
    """Expansion.matches() returns what comes after the match."""
    n = model.spec(case["node"])
    lang = model.Language((), ())
    letters = model.words_of(n) or ["a"]
    msgs = []
    for words in model.speeches(letters, case["len"], max_foreign=1):
        if not words:
            continue
        e = model.build(n)
        speech = " ".join(words)
        rest = e.matches(speech)
        res.transitions += 1
        ends = lang.ends(n, words, 0)
        k = len(words) - len(rest.split())
        what = "%s: matches(%r) returned %r" % (model.show(n), speech, rest)
        if tuple(rest.split()) != words[k:]:
            msgs.append(what + ", which is not the end of it")
        elif e.current_match:
            if k not in ends or e.current_match.split() != list(words[:k]):
                msgs.append(what + " and the match is %r" % e.current_match)
            elif (e.matching_slice.start, e.matching_slice.stop) != (
                    0, len(" ".join(words[:k]))):
                msgs.append(what + " and the slice is %s" % e.matching_slice)
            res.outcome("partial" if rest else "complete")
        else:
            if k:
                msgs.append(what + " without a match")
            res.outcome("none")
        nxt = words[k:k + 1]
        if not msgs and ends and model.unambiguous(n, (), nxt) and k != max(ends):
            msgs.append(what + ", but the longest match has %d words" % max(ends))
    res.states += 1
    return msgs


def one(node, **kw):
    case = {"world": (("r", True, node),), "i": 0}
    case.update(kw)
    return case


def tree_cases(ctx):
    for t in model.Trees().up_to(ctx.pick(5, 6)):
        yield one(t, len=3 if model.size(t) == 6 else 4, foreign=0)


def form_cases(ctx):
    for t in model.Trees(leaves=(L("a"), L("b"))).up_to(4):
        yield one(t, len=3, foreign=1, forms=True)
    for t in (L("a b"), S(L("a b"), O(L("c d"))), R(L("a b")), LC("A b"),
              A(L("a"), L("a b"), L("a b c")), S(L("a"), K(L("b c"))),
              R(A(LC("A"), LC("a"))), S(L("A"), LC("B"))):
        yield one(t, len=4, foreign=0, forms=True,
                  words=["a", "b", "c", "A", "B"])


def repeat_cases(ctx):
    """Repeats of sequences, sets and repeats with several literals."""
    leaves = (L("a"), L("b"), L("c"))
    inner = [t for t in model.Trees(leaves=leaves).up_to(4, symmetry=False)
             if model.size(t) >= 3]
    for t in inner:
        if len(model.words_of(t)) == 2 or not ctx.quick:
            yield one(R(t), len=ctx.pick(4, 5), foreign=0)
            yield one(S(K(t), L("d")), len=4, foreign=0)
    for t in model.Trees(leaves=leaves[:2]).up_to(3, symmetry=False):
        for wrap in (lambda x: R(S(O(L("c")), R(x))), lambda x: K(A(L("c"), x)),
                     lambda x: R(S(K(x), L("c"))), lambda x: S(R(x), O(R(L("c"))))):
            yield one(wrap(t), len=ctx.pick(4, 6), foreign=0)


def reference_cases(ctx):
    from . import c01
    for w in c01.reference_worlds(ctx):
        yield {"world": w, "i": 0, "len": 3, "foreign": 0}


def part_cases(ctx):
    for t in model.Trees().up_to(ctx.pick(5, 6)):
        yield {"node": t, "len": 3}


def large_cases(ctx):
    for t in itertools.chain(model.wide_trees(), model.deep_trees()):
        yield one(t, large=True)


SPACES = [
    ("large trees", judge, large_cases, "trees with up to %d children and of depth up "
     "to %d" % (model.WIDE[-1], model.DEEP[-1])),
    ("trees", judge, tree_cases, "all trees up to the node bound; all speech"),
    ("forms", judge, form_cases, "several spaces between words, letter case, "
     "literals of several words"),
    ("repeats", judge, repeat_cases, "repeats of all trees of 3 and 4 nodes in "
     "several contexts"),
    ("references", judge, reference_cases, "all 2-rule worlds and 3-rule chains"),
    ("parts", judge_part, part_cases, "partial matches of all trees"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), j, bound)
    ctx.assumptions = [
        "data of rules referenced several times by one rule is not compared",
        "small scope: tree size, speech length and vocabulary as listed per part",
    ]
