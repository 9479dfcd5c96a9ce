"""
Reference model: specifications of expansion trees, their exhaustive enumeration and
the languages, derivations and match data they define. Nothing in here uses jsgf
except build() and friends, which make the real objects described by specifications.

A node is a tuple (kind, arg, kids, tag):

  L   literal (arg: text)                LC  case-sensitive literal (arg: text)
  S   sequence                           G   required grouping
  A   alternatives (arg: None or tuple of weights)
  O   optional    R  repeat (1+)    K  Kleene star (0+)
  N   <NULL>      V  <VOID>
  F   reference by rule object (arg: index of the rule)
  Q   reference by rule name (arg: index of the rule)
  D   dictation (extension package)

A world is a tuple of rules (name, visible, node); references refer to rules of the
world by index.
"""
import itertools

UNARY = ("O", "R", "K", "G")
EMPTY = frozenset()


def L(text, tag=""):
    return ("L", text, (), tag)


def LC(text, tag=""):
    return ("LC", text, (), tag)


def S(*kids, **kw):
    return ("S", None, tuple(kids), kw.get("tag", ""))


def G(*kids, **kw):
    return ("G", None, tuple(kids), kw.get("tag", ""))


def A(*kids, **kw):
    w = kw.get("weights")
    return ("A", None if w is None else tuple(w), tuple(kids), kw.get("tag", ""))


def O(kid, tag=""):
    return ("O", None, (kid,), tag)


def R(kid, tag=""):
    return ("R", None, (kid,), tag)


def K(kid, tag=""):
    return ("K", None, (kid,), tag)


def F(index, tag=""):
    return ("F", index, (), tag)


def Q(index, tag=""):
    return ("Q", index, (), tag)


def D(tag=""):
    return ("D", None, (), tag)


N = ("N", None, (), "")
V = ("V", None, (), "")


def spec(x):
    """Make a node out of its JSON form (lists instead of tuples)."""
    if isinstance(x, (list, tuple)):
        return tuple([spec(i) for i in x])
    return x


def show(n):
    """A readable form of a node (not necessarily valid JSGF)."""
    kind, arg, kids, tag = n
    ks = [show(k) for k in kids]
    if kind == "L":
        s = arg
    elif kind == "LC":
        s = "=" + arg
    elif kind == "S":
        s = "<" + " ".join(ks) + ">" if len(ks) != 1 else "S<%s>" % ks[0]
    elif kind == "G":
        s = "(" + " ".join(ks) + ")"
    elif kind == "A":
        ws = arg or [None] * len(ks)
        s = "{" + "|".join(["%s%s" % ("" if w is None else "/%s/" % w, k)
                            for w, k in zip(ws, ks)]) + "}"
    elif kind == "O":
        s = "[%s]" % ks[0]
    elif kind == "R":
        s = "%s+" % ks[0]
    elif kind == "K":
        s = "%s*" % ks[0]
    elif kind == "N":
        s = "<NULL>"
    elif kind == "V":
        s = "<VOID>"
    elif kind == "F":
        s = "<#%d>" % arg
    elif kind == "Q":
        s = "<%%%d>" % arg
    else:
        s = "<DICT>"
    return s + ("`%s`" % tag if tag else "")


def show_world(world):
    return "; ".join(["%s%s=%s" % ("public " if v else "", n, show(e))
                      for n, v, e in world])


def size(n):
    return 1 + sum([size(k) for k in n[2]])


def walk(n, path=()):
    """Pre-order (path, node) pairs of a tree (references are not followed)."""
    yield path, n
    for i, k in enumerate(n[2]):
        for x in walk(k, path + (i,)):
            yield x


def node_at(n, path):
    for i in path:
        n = n[2][i]
    return n


def replace_at(n, path, new):
    if not path:
        return new
    kids = list(n[2])
    kids[path[0]] = replace_at(kids[path[0]], path[1:], new)
    return (n[0], n[1], tuple(kids), n[3])


def with_tag(n, tag):
    return (n[0], n[1], n[2], tag)


def words_of(n, world=()):
    """The words used by a tree, following references."""
    out = []

    def rec(x, seen):
        if x[0] in ("L", "LC"):
            for w in x[1].split():
                if w not in out:
                    out.append(w)
        elif x[0] in ("F", "Q") and x[1] not in seen:
            rec(world[x[1]][2], seen | {x[1]})
        for k in x[2]:
            rec(k, seen)
    rec(n, frozenset())
    return out


def canonical_letters(n, letters="abcd"):
    """Whether the letters used appear in alphabetical order of first use."""
    used = 0
    for _, x in walk(n):
        if x[0] in ("L", "LC"):
            i = letters.index(x[1])
            if i > used:
                return False
            if i == used:
                used += 1
    return True


# Enumeration.

def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for first in range(1, total - parts + 2):
        for rest in compositions(total - first, parts - 1):
            yield (first,) + rest


class Trees(object):
    """
    Enumerates every tree with exactly n nodes over some leaves, unary kinds and
    n-ary kinds. Trees that only differ by a renaming of the literals are produced
    once.
    """

    def __init__(self, leaves=(L("a"), L("b"), N, V), unary=("O", "R", "K"),
                 nary=("S", "A"), min_arity=2, max_arity=3):
        self.leaves = tuple(leaves)
        self.unary = unary
        self.nary = nary
        self.min_arity = min_arity
        self.max_arity = max_arity
        self._memo = {}

    def of_size(self, n):
        if n in self._memo:
            return self._memo[n]
        out = []
        if n == 1:
            out.extend(self.leaves)
        else:
            for kid in self.of_size(n - 1):
                for k in self.unary:
                    out.append((k, None, (kid,), ""))
            for arity in range(self.min_arity, min(self.max_arity, n - 1) + 1):
                for sizes in compositions(n - 1, arity):
                    for kids in itertools.product(*[self.of_size(s) for s in sizes]):
                        for k in self.nary:
                            out.append((k, None, kids, ""))
        self._memo[n] = out
        return out

    def up_to(self, n, symmetry=True):
        for i in range(1, n + 1):
            for t in self.of_size(i):
                if not symmetry or canonical_letters(t):
                    yield t


def speeches(letters, max_len, foreign="z", max_foreign=1):
    """
    Every speech string (as a tuple of words) up to a length over the letters, with
    at most max_foreign foreign words.
    """
    alphabet = list(letters) + ([foreign] if max_foreign else [])
    for n in range(max_len + 1):
        for t in itertools.product(alphabet, repeat=n):
            if t.count(foreign) <= max_foreign:
                yield t


# Languages.

def weight_of(w):
    return w


def live_kids(n):
    """(index, kid) pairs of the alternatives that can be matched."""
    if n[0] == "A" and n[1] is not None:
        return [(i, k) for i, k in enumerate(n[2]) if n[1][i] > 0]
    return list(enumerate(n[2]))


class Language(object):
    """
    The language of the rules of a world, at the level of words. 'inactive' rules
    are still used through references.
    """

    def __init__(self, world, same=None):
        self.world = world
        self.same = same
        self._memo = {}

    def ends(self, n, words, i):
        """The set of positions where a match of n starting at i can end."""
        key = (n, words, i)
        if key in self._memo:
            r = self._memo[key]
            if r is None:
                raise RecursionError("left recursion")
            return r
        self._memo[key] = None
        r = self._memo[key] = frozenset(self._ends(n, words, i))
        return r

    def _ends(self, n, words, i):
        kind, arg, kids, _ = n
        if kind in ("L", "LC"):
            ws = arg.split()
            part = words[i:i + len(ws)]
            if len(part) != len(ws):
                return ()
            if kind == "L":
                ok = [w.lower() for w in part] == [w.lower() for w in ws]
            else:
                ok = list(part) == ws
            return (i + len(ws),) if ok else ()
        if kind in ("S", "G"):
            cur = {i}
            for k in kids:
                cur = set().union(*[self.ends(k, words, p) for p in cur]) \
                    if cur else cur
            return cur
        if kind == "A":
            out = set()
            for _, k in live_kids(n):
                out |= self.ends(k, words, i)
            return out
        if kind == "O":
            return {i} | self.ends(kids[0], words, i)
        if kind in ("R", "K"):
            seen = set()
            todo = list(self.ends(kids[0], words, i))
            while todo:
                p = todo.pop()
                if p in seen:
                    continue
                seen.add(p)
                if p > i:
                    todo.extend(self.ends(kids[0], words, p))
            return seen | ({i} if kind == "K" else set())
        if kind == "N":
            return (i,)
        if kind == "V":
            return ()
        if kind in ("F", "Q"):
            return self.ends(self.world[arg][2], words, i)
        if kind == "D":
            return range(i + 1, len(words) + 1)
        raise ValueError(kind)

    def accepts(self, n, words):
        return len(words) in self.ends(n, words, 0)

    def nullable(self, n):
        return 0 in self.ends(n, (), 0)

    # Derivations.

    def derivations(self, n, words, i, j, path=()):
        """
        Every derivation of words[i:j] by n, as tuples of ('m', path, i, j) entries
        for each part used. Paths contain child indexes; a reference is followed by
        '@' and repetitions by ('r', k). Repetitions match at least one word, unless
        there is only one.
        """
        kind, arg, kids, _ = n
        me = ((path, i, j),)
        if j not in self.ends(n, words, i):
            return
        if kind in ("L", "LC", "N", "D"):
            yield me
        elif kind in ("S", "G"):
            for d in self._seq(kids, 0, words, i, j, path):
                yield me + d
        elif kind == "A":
            for x, k in live_kids(n):
                for d in self.derivations(k, words, i, j, path + (x,)):
                    yield me + d
        elif kind == "O":
            used = False
            for d in self.derivations(kids[0], words, i, j, path + (0,)):
                if i == j:
                    # Not distinguishable from not being used.
                    continue
                used = True
                yield me + d
            if i == j and not used:
                yield me
        elif kind in ("R", "K"):
            if i == j:
                yield me
            else:
                for d in self._rep(kids[0], words, i, j, path, 0):
                    yield me + d
        elif kind in ("F", "Q"):
            for d in self.derivations(self.world[arg][2], words, i, j,
                                      path + ("@",)):
                yield me + d

    def _seq(self, kids, x, words, i, j, path):
        if x == len(kids):
            if i == j:
                yield ()
            return
        for p in sorted(self.ends(kids[x], words, i)):
            if p > j:
                continue
            rests = list(self._seq(kids, x + 1, words, p, j, path))
            if rests:
                for d in self.derivations(kids[x], words, i, p, path + (x,)):
                    for r in rests:
                        yield d + r

    def _rep(self, kid, words, i, j, path, count):
        if i == j:
            yield ()
            return
        for p in sorted(self.ends(kid, words, i)):
            if i < p <= j:
                rests = list(self._rep(kid, words, p, j, path, count + 1))
                if rests:
                    for d in self.derivations(kid, words, i, p,
                                              path + (("r", count),)):
                        for r in rests:
                            yield d + r


# The class of unambiguous trees.
#
# The documentation says that matching ambiguous expansions is not supported, e.g. an
# optional x that is followed by a required x. Matching decides locally how long each
# part's match is, so a tree is unambiguous here if no part of it can be continued
# by a word that can also come directly after that part.

def inline(n, world, depth=0):
    """Replace references by the expansions they stand for."""
    if depth > 50:
        raise RecursionError("recursive rules")
    if n[0] in ("F", "Q"):
        return ("G", None, (inline(world[n[1]][2], world, depth + 1),), n[3])
    return (n[0], n[1], tuple([inline(k, world, depth) for k in n[2]]), n[3])


def collapse(n):
    """
    Remove repeats that are the only branch of an outer repeat: ((e)+)+ is e+. Those
    don't change the language or the way repeats are matched.
    """
    kind, arg, kids, tag = n
    kids = tuple([collapse(k) for k in kids])
    if kind in ("R", "K"):
        k = kids[0]
        while k[0] in ("S", "G", "A") and len(k[2]) == 1:
            k = k[2][0]
        if k[0] == "R" or (k[0] == "K" and kind == "K"):
            kids = (k[2][0],)
    return (kind, arg, kids, tag)


class _Nfa(object):
    """Thompson construction over words."""

    def __init__(self):
        self.eps = []
        self.step = []

    def state(self):
        self.eps.append([])
        self.step.append([])
        return len(self.eps) - 1

    def build(self, n):
        kind, arg, kids, _ = n
        a, b = self.state(), self.state()
        if kind in ("L", "LC"):
            cur = a
            for w in arg.lower().split():
                nxt = self.state()
                self.step[cur].append((w, nxt))
                cur = nxt
            self.eps[cur].append(b)
        elif kind in ("S", "G"):
            cur = a
            for k in kids:
                x, y = self.build(k)
                self.eps[cur].append(x)
                cur = y
            self.eps[cur].append(b)
        elif kind == "A":
            for _, k in live_kids(n):
                x, y = self.build(k)
                self.eps[a].append(x)
                self.eps[y].append(b)
        elif kind in ("O", "R", "K"):
            x, y = self.build(kids[0])
            self.eps[a].append(x)
            self.eps[y].append(b)
            if kind in ("O", "K"):
                self.eps[a].append(b)
            if kind in ("R", "K"):
                self.eps[y].append(x)
        elif kind == "N":
            self.eps[a].append(b)
        elif kind == "V":
            pass
        else:
            raise ValueError(kind)
        return a, b


def _closure(nfa, states):
    out = set(states)
    todo = list(states)
    while todo:
        for t in nfa.eps[todo.pop()]:
            if t not in out:
                out.add(t)
                todo.append(t)
    return frozenset(out)


_EXT = {}


def first_ext(n):
    """
    (FIRST, EXT, nullable) of a tree without references. EXT is the set of words v
    such that w and w v x are both matches for some w and x.
    """
    if n in _EXT:
        return _EXT[n]
    nfa = _Nfa()
    a, b = nfa.build(n)
    # States from which the end can be reached.
    rev = [[] for _ in nfa.eps]
    for s in range(len(nfa.eps)):
        for t in nfa.eps[s]:
            rev[t].append(s)
        for _, t in nfa.step[s]:
            rev[t].append(s)
    live = {b}
    todo = [b]
    while todo:
        for s in rev[todo.pop()]:
            if s not in live:
                live.add(s)
                todo.append(s)
    start = _closure(nfa, [a])
    seen = {start}
    todo = [start]
    first, ext = set(), set()
    while todo:
        cur = todo.pop()
        steps = {}
        for s in cur:
            for w, t in nfa.step[s]:
                if t in live:
                    steps.setdefault(w, set()).add(t)
        if cur == start:
            first |= set(steps)
        if b in cur:
            ext |= set(steps)
        for w, ts in steps.items():
            nxt = _closure(nfa, ts)
            if nxt not in seen:
                seen.add(nxt)
                todo.append(nxt)
    r = (frozenset(first), frozenset(ext), b in start)
    if len(_EXT) > 200000:
        _EXT.clear()
    _EXT[n] = r
    return r


def unambiguous(n, world=(), follow=EMPTY):
    """Whether a tree is in the class of unambiguous trees."""
    return _unambiguous(collapse(inline(n, world)), frozenset(follow))


def _unambiguous(n, follow):
    if first_ext(n)[1] & follow:
        return False
    kind, arg, kids, _ = n
    if kind in ("S", "G"):
        f = follow
        for k in reversed(kids):
            if not _unambiguous(k, f):
                return False
            first, _, nullable = first_ext(k)
            f = first | f if nullable else first
        return True
    if kind == "A":
        return all([_unambiguous(k, follow) for _, k in live_kids(n)])
    if kind == "O":
        return _unambiguous(kids[0], follow)
    if kind in ("R", "K"):
        return _unambiguous(kids[0], follow | first_ext(kids[0])[0])
    return True


# Real objects.

def build(n, rules=(), names=()):
    """Make the real expansion for a node."""
    import jsgf
    kind, arg, kids, tag = n
    if kind == "L":
        e = jsgf.Literal(arg)
    elif kind == "LC":
        e = jsgf.Literal(arg, case_sensitive=True)
    elif kind == "N":
        e = jsgf.NullRef()
    elif kind == "V":
        e = jsgf.VoidRef()
    elif kind == "F":
        e = jsgf.RuleRef(rules[arg])
    elif kind == "Q":
        e = jsgf.NamedRuleRef(names[arg])
    elif kind == "D":
        from jsgf.ext import Dictation
        e = Dictation()
    else:
        ks = [build(k, rules, names) for k in kids]
        cls = {"S": jsgf.Sequence, "G": jsgf.RequiredGrouping,
               "A": jsgf.AlternativeSet, "O": jsgf.OptionalGrouping,
               "R": jsgf.Repeat, "K": jsgf.KleeneStar}[kind]
        e = cls(*ks)
        if kind == "A" and arg is not None:
            for i, w in enumerate(arg):
                e.set_weight(i, w)
    if tag:
        e.tag = tag
    return e


def ref_order(world):
    """
    Order in which the rules of a world can be made: rules referenced by object come
    first.
    """
    order, state = [], {}

    def visit(i):
        if state.get(i) == 2:
            return
        if state.get(i) == 1:
            raise RecursionError("recursive rules")
        state[i] = 1
        for _, x in walk(world[i][2]):
            if x[0] == "F":
                visit(x[1])
        state[i] = 2
        order.append(i)
    for i in range(len(world)):
        visit(i)
    return order


def build_world(world, grammar=True, grammar_name="g", grammar_cls=None, **kw):
    """
    Make the real rules (and grammar) of a world. Rules are added in world order.
    """
    import jsgf
    names = [w[0] for w in world]
    rules = [None] * len(world)
    for i in ref_order(world):
        name, visible, node = world[i]
        e = build(node, rules, names)
        rules[i] = jsgf.Rule(name, visible, e)
        # Rules set the case sensitivity of literals, so restore it.
        restore_case(node, e)
    if not grammar:
        return None, rules
    g = (grammar_cls or jsgf.Grammar)(name=grammar_name, **kw)
    for i, r in enumerate(rules):
        g.add_rule(r)
    for i, r in enumerate(rules):
        restore_case(world[i][2], r.expansion)
    return g, rules


def restore_case(node, e):
    for (path, x), y in zip(walk(node), walk_real(e)):
        if x[0] == "LC":
            y.case_sensitive = True


def walk_real(e):
    """Pre-order real expansions of a tree (references are not followed)."""
    yield e
    for c in e.children:
        for x in walk_real(c):
            yield x


def real_at(e, path):
    for i in path:
        e = e.children[i]
    return e


def read(e, index_of=None):
    """The specification of a real expansion tree."""
    import jsgf
    tag = e.tag
    t = type(e)
    if t.__name__ == "Dictation":
        return ("D", None, (), tag)
    if isinstance(e, jsgf.Literal):
        return ("LC" if e.case_sensitive else "L", e.text, (), tag)
    if isinstance(e, jsgf.NullRef):
        return ("N", None, (), tag)
    if isinstance(e, jsgf.VoidRef):
        return ("V", None, (), tag)
    if isinstance(e, jsgf.RuleRef):
        return ("F", e.referenced_rule.name if index_of is None
                else index_of(e.referenced_rule.name), (), tag)
    if isinstance(e, jsgf.NamedRuleRef):
        return ("Q", e.name if index_of is None else index_of(e.name), (), tag)
    kids = tuple([read(c, index_of) for c in e.children])
    if isinstance(e, jsgf.KleeneStar):
        return ("K", None, kids, tag)
    if isinstance(e, jsgf.Repeat):
        return ("R", None, kids, tag)
    if isinstance(e, jsgf.OptionalGrouping):
        return ("O", None, kids, tag)
    if isinstance(e, jsgf.AlternativeSet):
        weights = None
        if e.weights:
            ws = []
            for c in e.children:
                # By identity first: keys may have been changed since.
                w = [v for k, v in e.weights.items() if k is c] or \
                    [v for k, v in e.weights.items() if k == c]
                ws.append(w[0] if w else None)
            weights = tuple(ws)
        return ("A", weights, kids, tag)
    if isinstance(e, jsgf.RequiredGrouping):
        return ("G", None, kids, tag)
    if isinstance(e, jsgf.Sequence):
        return ("S", None, kids, tag)
    raise TypeError("unknown expansion %r" % type(e))


# Word variants used to test case and whitespace handling.

def join(words):
    return " ".join(words)


# Larger trees, to see whether sizes beyond the exhaustive bounds make a difference.

WIDE = (4, 5, 6, 8, 10, 13)
DEEP = (4, 6, 9, 12)


def wide_trees():
    """Sequences, sets and groupings with many children, whose last child varies."""
    letters = [chr(ord("a") + i) for i in range(26)]
    for n in WIDE:
        kids = [L(c) for c in letters[:n]]
        lasts = [kids[-1], O(kids[-1]), R(kids[-1]), K(kids[-1]),
                 S(kids[-1], L("y")), A(kids[-1], L("y"))]
        for last in lasts:
            for kind in ("S", "G", "A"):
                yield (kind, None, tuple(kids[:-1]) + (last,), "")
            # Nullable alternatives are ambiguous.
            if last[0] not in "OK":
                for weights in (tuple(range(1, n + 1)), tuple(range(n - 1, -1, -1))):
                    yield A(*(kids[:-1] + [last]), weights=weights)
        yield S(*[O(k) for k in kids])
        # The same words again.
        for kind in "SG":
            yield (kind, None, tuple(kids[:-1]) + (kids[0],), "")
            yield (kind, None, tuple(kids[:-2]) + (kids[-3], kids[-3]), "")
            yield (kind, None, tuple([kids[i % 2] for i in range(n)]), "")
        yield S(*[S(kids[0], k) for k in kids])
        yield A(*[S(k, L("y")) for k in kids])


def deep_trees():
    """Chains of two alternating kinds of expansions."""
    kinds = ("O", "R", "K", "S", "G", "A", "A2")
    for depth in DEEP:
        for i, u in enumerate(kinds):
            for v in kinds[i:]:
                for pair in ((u, v), (v, u))[:1 if u == v else 2]:
                    n = L("a")
                    for x in range(depth):
                        k = pair[x % 2]
                        n = A(n, L("b")) if k == "A2" else (k, None, (n,), "")
                    yield n


def large_speech(n):
    """All relevant speech strings for a wide or deep tree, as tuples of words."""
    words = words_of(n)
    if len(words) <= 2:
        return list(speeches(words, 3, max_foreign=1))
    full = tuple([w for w in words if w != "y"])
    base = [full, full + ("y",), full[:-1] + ("y",), full + full[-1:], full[:-1], ()]
    base += [(w,) for w in words] + [(w, "y") for w in words]
    out = []
    for b in base:
        variants = [b] + [b[:i] + b[i + 1:] for i in range(len(b))]
        variants += [b[:i] + ("z",) + b[i + 1:] for i in range(len(b))]
        variants += [b[:i] + b[i + 1:i + 2] + b[i:i + 1] + b[i + 2:]
                     for i in range(len(b) - 1)]
        for v in variants:
            if v not in out:
                out.append(v)
    return out
