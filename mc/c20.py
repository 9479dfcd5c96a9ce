"""
C20: expansions and sequences of dictation mean what the original expansion means.

Every tree with dictation up to a size is expanded and split into sequences by the real
functions; the languages of the results are compared with the original's language on
every speech string up to a length.
"""
import itertools

from . import model
from .model import A, D, F, K, L, O, R, S

PROP = "C20"
_SPS = {}


def speeches(n):
    if n not in _SPS:
        _SPS[n] = [t for i in range(n + 1) for t in itertools.product("abx", repeat=i)]
    return _SPS[n]


def dictations(n, world):
    return sum([1 for _, x in model.walk(model.inline(n, world)) if x[0] == "D"])


def unprocessed(n):
    """Whether alternatives or optional parts with dictation are left."""
    for _, x in model.walk(n):
        if x[0] == "A":
            d = [dictations(k, ()) > 0 for k in x[2]]
            if any(d) and len(d) > 1:
                return True
        elif x[0] in "OK" and dictations(x, ()):
            return True
    return False


def repeats_mixed(n):
    """Whether a repeat's repetitions can differ in how dictation is used."""
    for _, x in model.walk(n):
        if x[0] in "RK" and dictations(x, ()) and \
                any([y[0] in "AOK" for _, y in model.walk(x[2][0])]):
            return True
        # Parts of sequences with dictation that can be left out are expanded too.
        if x[0] in "RK" and any([y[0] in "OK" for _, y in model.walk(x[2][0])]) and \
                dictations(n, ()):
            return True
    return False


def label(n):
    """Tag every leaf with its position."""
    count = [0]

    def rec(x):
        if not x[2] and x[0] != "F":
            count[0] += 1
            return model.with_tag(x, "t%d" % count[0])
        return (x[0], x[1], tuple([rec(k) for k in x[2]]), x[3])
    return rec(n)


def leaves(n, world):
    return [x for _, x in model.walk(model.inline(n, world)) if not x[2]]


def bag(lang, n, length):
    return {w for w in speeches(length) if lang.accepts(n, w)}


def judge(result, case):
    import jsgf
    from jsgf.ext.expansions import (calculate_expansion_sequence,
                                     expand_dictation_expansion)
    world, length, check_weights = model.spec(case["world"]), case["length"], \
        case.get("weights")
    node = world[-1][2]
    index = {w[0]: i for i, w in enumerate(world)}.get
    _, rules = model.build_world(world, grammar=False)
    e = rules[-1].expansion
    lang = model.Language(world)
    inlined = model.inline(node, world)
    msgs = []
    result.states += 1

    def read(x):
        return model.read(x, index)

    def unchanged(what):
        for r, w in zip(rules, world):
            got = read(r.expansion)
            if model.show(got) != model.show(norm(w[2])):
                msgs.append("%s changed rule %s: %s" % (what, w[0], model.show(got)))

    expanded = expand_dictation_expansion(e)
    unchanged("expanding")
    if msgs:
        return msgs
    specs = [read(x) for x in expanded]
    again = [read(x) for x in expand_dictation_expansion(e)]
    if again != specs:
        msgs.append("expanding again gives something else")
    show = "%s -> %s" % (model.show_world(world), [model.show(s) for s in specs])

    # What is left.
    needs = unprocessed(inlined)
    for s in specs:
        if unprocessed(model.inline(s, world)):
            msgs.append("not fully expanded: %s" % show)
    for x, y in itertools.combinations(specs, 2):
        if bare(x) == bare(y):
            msgs.append("same expansion twice: %s" % show)

    # Nothing is shared with the original.
    if len(expanded) != 1 or expanded[0] is not e:
        ids = {id(x) for r in rules for x in model.walk_real(r.expansion)}
        for x in expanded:
            if any([id(y) in ids for y in model.walk_real(x)]):
                msgs.append("original used in expanded expansions: %s" % show)
            if x.parent is not None:
                msgs.append("expanded expansion has a parent: %s" % show)
    elif needs:
        msgs.append("not expanded: %s" % show)

    # Order and tags of the words.
    order = {x: i for i, x in enumerate(leaves(node, world))}
    if case.get("labels"):
        for s in specs:
            ls = [order.get(x, -1) for x in leaves(s, world)]
            if -1 in ls or ls != sorted(ls):
                msgs.append("different leaves or order: %s" % show)
    if check_weights and len([1 for _, x in model.walk(node) if x[0] == "A"]) == 1:
        for s in specs:
            if not weights_kept_subset(node, s):
                msgs.append("different weights: %s" % show)

    # The language.
    original = bag(lang, node, length)
    union = set()
    for s in specs:
        union |= bag(lang, s, length)
    result.transitions += len(speeches(length)) * (1 + len(specs))
    if not union <= original:
        msgs.append("the expanded expansions match %s, the original doesn't: %s" % (
            sorted(union - original)[:2], show))
    if not repeats_mixed(inlined) and not original - union <= {()}:
        msgs.append("the original matches %s, the expanded expansions don't: %s" % (
            sorted(original - union)[:2], show))
    result.traces += 1
    result.outcome("expanded into %d" % len(specs))

    # Sequences.
    for x, s in zip(expanded, specs):
        seq = calculate_expansion_sequence(x)
        unchanged("calculating the sequence")
        if read(x) != s:
            msgs.append("calculating the sequence changed %s" % model.show(s))
        ss = [read(y) for y in seq]
        result.outcome("sequence of %d" % len(ss))
        msgs.extend(judge_sequence(lang, world, s, ss, length, case.get("labels")))
        # The same without copies.
        other = x.copy()
        ss2 = [read(y) for y in calculate_expansion_sequence(other, False)]
        if ss2 != ss:
            msgs.append("different sequence without copying: %s" % model.show(s))
        for y in seq:
            if y.parent is not None:
                msgs.append("sequence expansion has a parent: %s" % model.show(s))
            if not isinstance(y, jsgf.Expansion):
                msgs.append("not an expansion: %r" % y)
    return msgs[:6]


def judge_sequence(lang, world, s, ss, length, labels):
    msgs = []
    show = "%s -> %s" % (model.show(s), [model.show(y) for y in ss])
    kinds = []
    for y in ss:
        ls = leaves(y, world)
        d = [x[0] == "D" for x in ls]
        if any(d) and len(d) > 1:
            msgs.append("dictation isn't separated: %s" % show)
        kinds.append(any(d))
    for x, y in zip(kinds, kinds[1:]):
        if not x and not y:
            msgs.append("split without dictation: %s" % show)
    if sum(kinds) != dictations(s, world):
        msgs.append("not as many as there is dictation: %s" % show)
    if not sum(kinds) and ss != [s]:
        msgs.append("changed without dictation: %s" % show)
    a, b = leaves(s, world), [x for y in ss for x in leaves(y, world)]
    if [(x[0], x[1], x[3]) for x in a] != [(x[0], x[1], x[3]) for x in b]:
        msgs.append("different leaves or order: %s" % show)
    inlined = model.inline(s, world)
    if not any([x[0] == "R" and dictations(x, ()) and len(leaves(x, ())) > 1
                for _, x in model.walk(inlined)]):
        x, y = bag(lang, s, length), bag(lang, S(*ss), length)
        if x != y:
            msgs.append("the sequence doesn't match the same: %s (%s)" % (
                show, sorted(x ^ y)[:2]))
    return msgs


def judge_any_sequence(result, case):
    """Sequences of expansions that aren't expanded."""
    from jsgf.ext.expansions import calculate_expansion_sequence
    world = model.spec(case["world"])
    node = world[-1][2]
    index = {w[0]: i for i, w in enumerate(world)}.get
    _, rules = model.build_world(world, grammar=False)
    ss = [model.read(y, index) for y in calculate_expansion_sequence(
        rules[-1].expansion)]
    result.states += 1
    result.transitions += len(ss)
    result.traces += 1
    msgs = []
    for r, w in zip(rules, world):
        if model.show(model.read(r.expansion, index)) != model.show(norm(w[2])):
            msgs.append("calculating the sequence changed rule %s" % w[0])
    show = "%s -> %s" % (model.show_world(world), [model.show(y) for y in ss])
    kinds = []
    for y in ss:
        d = [x[0] == "D" for x in leaves(y, world)]
        if any(d) and len(d) > 1:
            msgs.append("dictation isn't separated: %s" % show)
        kinds.append(any(d))
    if sum(kinds) != dictations(node, world):
        msgs.append("not as many as there is dictation: %s" % show)
    a, b = leaves(node, world), [x for y in ss for x in leaves(y, world)]
    if [(x[0], x[1], x[3]) for x in a] != [(x[0], x[1], x[3]) for x in b]:
        msgs.append("different leaves or order: %s" % show)
    result.outcome("sequence of %d" % len(ss))
    return msgs


def norm(n):
    """Weights as floats."""
    arg = tuple([float(w) for w in n[1]]) if n[0] == "A" and n[1] is not None else n[1]
    return (n[0], arg, tuple([norm(k) for k in n[2]]), n[3])


def bare(n):
    return (n[0], n[1], tuple([bare(k) for k in n[2]]), "")


def weights_kept_subset(orig, new):
    """
    Whether alternatives without dictation have the weights they had, by the leaves of
    the alternatives.
    """
    def pairs(n, dictation):
        return {(tuple([x[3] for x in leaves(k, ()) if x[0] != "D"]),
                 None if x[1] is None else float(x[1][i]))
                for _, x in model.walk(n) if x[0] == "A"
                for i, k in enumerate(x[2]) if dictation or not dictations(k, ())}
    return pairs(new, False) <= pairs(orig, True)


def variants(n):
    """What can become of an expansion when it's expanded (None: removed)."""
    kind, arg, kids, tag = n
    out = {n}
    if kind in "OK":
        for v in variants(kids[0]):
            out |= {None} if v is None else {v if kind == "O" else R(v)}
        out.add(None)
    elif kind == "A":
        for k in kids:
            out |= variants(k)
        live = [k for i, k in enumerate(kids) if arg is None or arg[i]]
        out.update([A(*c) for m in range(2, len(live))
                    for c in itertools.combinations(live, m)])
    elif kids:
        for vs in itertools.product(*[variants(k) for k in kids]):
            vs = tuple([v for v in vs if v is not None])
            out.add((kind, None, vs, tag) if vs else None)
    return out


def distinct(n):
    """
    Whether alternatives can't become equal when they're expanded (equal alternatives
    cannot have different weights).
    """
    for _, x in model.walk(n):
        if x[0] == "A":
            vs = [variants(k) - {None} for k in x[2]]
            if any([v & w for v, w in itertools.combinations(vs, 2)]):
                return False
    return True


def trees(size, leaves=(L("a"), L("b"), D()), max_arity=3, kinds=("O", "R", "K", "G")):
    return model.Trees(leaves=leaves, unary=kinds, nary=("S", "A"),
                       max_arity=max_arity)


def run(ctx):
    ctx.assumptions = [
        "Referenced by rule object: references by name cannot be resolved in "
        "expanded copies, which don't belong to a rule, and are not supported by the "
        "extension package.",
        "Repetitions that mix dictation with alternatives or optional parts are "
        "expanded into repetitions of the same kind (only soundness is checked).",
        "A rule with dictation that matches nothing at all isn't in the results.",
    ]
    size = ctx.pick(6, 7)
    length = ctx.pick(3, 3)
    cases = []
    for n in trees(size).up_to(size):
        if dictations(n, ()):
            cases.append({"world": [["m", True, label(n)]], "length": length,
                          "labels": True})
    ctx.explore("expand", cases, judge,
                "all trees of a, b and dictation with up to %d nodes, all speech of "
                "up to %d words" % (size, length))

    # Larger trees of sequences and alternatives only.
    big = ctx.pick(7, 8)
    cases = []
    ts = trees(big, kinds=("O",) if ctx.quick else ("O", "K"))
    for n in ts.of_size(big):
        if dictations(n, ()) and model.canonical_letters(n) and \
                n[0] != "O":
            cases.append({"world": [["m", True, label(n)]], "length": 3,
                          "labels": True})
    ctx.explore("expand larger", cases, judge,
                "all trees of sequences, alternatives and optional parts with %d "
                "nodes, all speech of up to 3 words" % big)

    # Weights.
    wsize = ctx.pick(6, 7)
    cases = []
    for n in trees(wsize, kinds=("O", "K", "G")).up_to(wsize):
        if not dictations(n, ()) or not distinct(n):
            continue
        for p, x in model.walk(n):
            if x[0] != "A":
                continue
            for ws in itertools.product((0, 1, 2), repeat=len(x[2])):
                if not any(ws):
                    continue
                m = label(model.replace_at(n, p, (x[0], ws, x[2], x[3])))
                cases.append({"world": [["m", True, m]], "length": 3, "labels": True,
                              "weights": True})
    ctx.explore("expand weighted", cases, judge,
                "all trees with up to %d nodes with weights 0, 1 and 2 on one set"
                % wsize)

    # References.
    refs = [D(), A(L("a"), D()), O(D()), S(L("a"), D()), A(L("a"), L("b")), K(D()),
            L("a"), A(D(), S(L("a"), D())), S(L("a"), O(D())), O(L("a")),
            S(D(), L("a"), D()), A(S(D(), L("a")), S(D(), L("b"))),
            S(O(L("a")), D()), R(D())]
    rsize = ctx.pick(4, 5)
    cases = []
    for ref in refs:
        for n in trees(rsize, leaves=(L("b"), D(), F(0))).up_to(rsize,
                                                                 symmetry=False):
            if any([x[0] == "F" for _, x in model.walk(n)]):
                cases.append({"world": [["r", False, ref], ["m", True, n]],
                              "length": 3})
    chain = [["r", False, A(L("a"), D())], ["s", False, S(L("b"), F(0))]]
    for n in trees(rsize, leaves=(L("b"), F(1), F(0))).up_to(ctx.pick(3, 4),
                                                             symmetry=False):
        if any([x == F(1) for _, x in model.walk(n)]):
            cases.append({"world": chain + [["m", True, n]], "length": 4})
    ctx.explore("references", [c for c in cases if dictations_in(c)], judge,
                "all trees with up to %d nodes with references to %d rules" % (
                    rsize, len(refs)))

    # Sequences of anything.
    ssize = ctx.pick(6, 7)
    cases = [{"world": [["m", True, label(n)]]}
             for n in trees(ssize).up_to(ssize) if dictations(n, ())]
    ctx.explore("any sequence", cases, judge_any_sequence,
                "all trees with up to %d nodes" % ssize)


def dictations_in(case):
    world = model.spec(case["world"])
    return dictations(world[-1][2], world) > 0


PARTS = {"expand": judge, "expand larger": judge, "expand weighted": judge,
         "references": judge, "any sequence": judge_any_sequence}
