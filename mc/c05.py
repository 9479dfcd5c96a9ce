"""
C05: tags are reported where they are used and matched.
"""
import itertools

from . import c01, c02, model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C05"
MAX_DERIVATIONS = 400


def tag_sites(world, i):
    """(path, tag, shared) in the order in which tags are listed."""
    counts = {}

    def count(n):
        for _, x in model.walk(n):
            if x[0] in ("F", "Q"):
                counts[x[1]] = counts.get(x[1], 0) + 1
                count(world[x[1]][2])
    count(world[i][2])
    out = []

    def rec(n, path, shared):
        for x, k in enumerate(n[2]):
            rec(k, path + (x,), shared)
        if n[0] in ("F", "Q"):
            rec(world[n[1]][2], path + ("@",), shared or counts[n[1]] > 1)
        if n[3]:
            out.append((path, n[3], shared))
    rec(world[i][2], (), False)
    return out


def matched(sites, entries):
    used = set([c02.strip_path(p) for p, i, j in entries if i < j])
    shared = set([t for p, t, s in sites if s and p in used])
    return [t for p, t, s in sites if p in used and not s], shared


def judge(res, case):
    world = model.spec(case["world"])
    grammar, rules = model.build_world(world)
    lang = model.Language(world)
    msgs = []
    res.states += 1

    def check(what, got, want):
        if got != want:
            msgs.append("%s: %s is %r rather than %r" % (
                model.show_world(world), what, got, want))

    # Tags used.
    every = set()
    uses = {}
    for i, rule in enumerate(rules):
        tags = [t for _, t, _ in tag_sites(world, i)]
        uses[i] = set(tags)
        every |= uses[i]
        check("tags of %s" % rule.name, rule.tags, tags)
    for t in sorted(every) + ["none", "", " ", "t"]:
        for i, rule in enumerate(rules):
            for form in (t, "  %s " % t):
                check("has_tag(%r) of %s" % (form, rule.name), rule.has_tag(form),
                      t in uses[i] and t.strip() != "")
        have = [i for i in range(len(world)) if t in uses[i]]
        check("find_tagged_rules(%r)" % t,
              [r.name for r in grammar.find_tagged_rules(t)],
              [world[i][0] for i in have if world[i][1]])
        check("find_tagged_rules(%r, True)" % t,
              [r.name for r in grammar.find_tagged_rules(t, include_hidden=True)],
              [world[i][0] for i in have])

    # Tags matched.
    i, rule, node = 0, rules[0], world[0][2]
    sites = tag_sites(world, 0)
    shared_tags = set([t for _, t, s in sites if s])
    letters = case.get("words") or model.words_of(node, world) or ["a"]
    check("matched_tags before matching", rule.matched_tags, [])
    for words in model.large_speech(node) if case.get("large") else \
            model.speeches(letters, case["len"], max_foreign=case["foreign"]):
        if not words:
            continue
        speech = " ".join(words)
        got = rule.get_tags_matching(speech)
        res.transitions += 1
        check("matched_tags and get_tags_matching(%r)" % speech, rule.matched_tags,
              got)
        check("was_matched and matches(%r)" % speech, rule.was_matched,
              rule.matches(speech))
        check("matched_tags after matches(%r)" % speech, rule.matched_tags, got)
        if not rule.was_matched:
            check("get_tags_matching(%r)" % speech, got, [])
            res.outcome("no match")
            continue
        wants = []
        for d in itertools.islice(lang.derivations(node, words, 0, len(words)),
                                  MAX_DERIVATIONS):
            want, shared = matched(sites, d)
            if ([t for t in got if t not in shared_tags] == want and
                    set(got) & shared_tags == shared):
                res.traces += 1
                res.outcome("%d tags" % len(set(got)))
                break
            wants.append((want, sorted(shared)))
        else:
            if len(wants) == MAX_DERIVATIONS:
                continue
            msgs.append("%s: tags matched by %r are %r rather than %s" % (
                model.show_world(world), speech, got, wants[0] if wants else None))
    # Found parts of the speech have tags too, but only of that part.
    for words in model.speeches(letters, 2, max_foreign=0):
        part = rule.find_matching_part("z " + " ".join(words))
        if part is None:
            check("matched_tags without a matching part", rule.matched_tags, [])
        else:
            ws = tuple(part.split())
            for d in itertools.islice(lang.derivations(node, ws, 0, len(ws)),
                                      MAX_DERIVATIONS):
                want, shared = matched(sites, d)
                got = rule.matched_tags
                if ([t for t in got if t not in shared_tags] == want and
                        set(got) & shared_tags == shared):
                    break
            else:
                msgs.append("%s: tags matched by the part %r of %r are %r" % (
                    model.show_world(world), part, words, rule.matched_tags))
    return msgs


def tag_all(n, prefix):
    """Tag every node, except for <NULL>, which matches no words."""
    def rec(x, path):
        return (x[0], x[1], tuple([rec(k, path + str(i))
                                   for i, k in enumerate(x[2])]),
                "" if x[0] in "NV" else prefix + path)
    return rec(n, "")


def tag_some(n, mask):
    """Tag the nodes of a mask, with equal tags."""
    paths = [p for p, x in model.walk(n)]
    for k, p in enumerate(paths):
        if mask & (1 << k):
            n = model.replace_at(n, p, model.with_tag(model.node_at(n, p),
                                                      "t%d" % (k % 2)))
    return n


def tree_cases(ctx):
    for t in model.Trees().up_to(ctx.pick(5, 6)):
        yield c01.one(tag_all(t, "t"), len=4 if model.size(t) < 6 else 3, foreign=0)


def mask_cases(ctx):
    for t in model.Trees(leaves=(L("a"), L("b"))).up_to(ctx.pick(4, 5)):
        for mask in range(1, 1 << model.size(t)):
            yield c01.one(tag_some(t, mask), len=3, foreign=0)


def repeat_cases(ctx):
    leaves = (L("a"), L("b"), L("c"))
    for t in model.Trees(leaves=leaves[:2]).up_to(3, symmetry=False):
        for wrap in (lambda x: R(S(O(L("c")), R(x))), lambda x: K(A(L("c"), x)),
                     lambda x: R(S(K(x), L("c"))), lambda x: S(R(x), O(R(L("c")))),
                     lambda x: S(O(S(x, L("c"))), L("a")),
                     lambda x: S(K(S(x, L("c"))), x)):
            yield c01.one(tag_all(wrap(t), "t"), len=ctx.pick(4, 6), foreign=0)


def reference_cases(ctx):
    for w in c01.reference_worlds(ctx):
        yield {"world": tuple([(n, v, tag_all(e, n)) for n, v, e in w]),
               "len": 3, "foreign": 0}
    # Tags of private and public rules.
    for m in (kind(1) for kind in (F, Q)):
        for e in (m, S(m), S(L("b"), m), O(m), R(m), A(m, L("b"))):
            for b in (L("a"), S(L("a"), L("b")), N, O(L("a"))):
                for mask in range(1 << (model.size(e) + model.size(b))):
                    k = model.size(e)
                    for v, u in itertools.product((True, False), repeat=2):
                        yield {"world": (
                            ("m", v, tag_some(e, mask & ((1 << k) - 1))),
                            ("x", u, tag_some(b, mask >> k))),
                            "len": 2, "foreign": 0}
    # Rules referenced in several places.
    for kind in (F, Q):
        x = kind(1)
        for m in (S(x, x), S(x, O(S(x, L("c")))), S(x, R(S(x, L("c")))),
                  S(R(S(x, L("c"))), x), A(S(x, L("c")), S(x, L("d"))),
                  S(K(S(x, L("c"))), x), R(S(x, O(x))), R(A(x, S(L("c"), x))),
                  S(R(x), L("c"), R(x)), S(O(x), L("c"), O(x)),
                  S(x, kind(2)), S(R(S(L("c"), kind(2))), x)):
            for b in (A(L("a"), L("b")), S(L("a"), O(L("b"))), S(O(L("a")), L("b")),
                      R(A(L("a"), L("b")))):
                world = [("m", True, m), ("x", False, b)]
                if 2 in [n[1] for _, n in model.walk(m) if n[0] in "FQ"]:
                    world.append(("y", True, O(kind(1))))
                yield {"world": tuple([(n, v, tag_all(e, n)) for n, v, e in world]),
                       "len": 4, "foreign": 0}


def large_cases(ctx):
    for t in itertools.chain(model.wide_trees(), model.deep_trees()):
        yield c01.one(tag_all(t, "t"), large=True)


SPACES = [
    ("large trees", large_cases, "trees with up to %d children and of depth up to "
     "%d" % (model.WIDE[-1], model.DEEP[-1])),
    ("trees", tree_cases, "all trees up to the node bound with a tag on every node"),
    ("masks", mask_cases, "all sets of tagged nodes, with equal tags"),
    ("repeats", repeat_cases, "tags in nested repeats and partial matches"),
    ("references", reference_cases, "tags in referenced rules"),
]
PARTS = dict([(s[0], judge) for s in SPACES])


def run(ctx):
    for name, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), judge, bound)
    ctx.assumptions = [
        "tags of rules that are referenced several times are compared as sets",
        "matched tags are those of parts that matched at least one word",
    ]
