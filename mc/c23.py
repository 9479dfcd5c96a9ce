"""
C23: children are lists, and the parents of expansions follow them.

A model of three lists of children and a parent per expansion is explored; every
operation on the real lists is compared with the same operation on Python lists.
"""
import itertools

from . import model

PROP = "C23"

# Three expansions with children and leaves; two of the leaves are equal.
CONTAINERS = "SAO"
LEAVES = ["a", "b", "a", "c"]
SPEECH = ["a", "b", "c", "a b", "b a", "a c", "b c", "c b", "a a", "a b c", "d", "d a",
          "a d", ""]
INVALID = (None, 1, object)
SLICES = [(0, 1, None), (1, None, None), (None, None, None), (None, 0, None),
          (5, None, None), (None, None, 2), (None, None, -1), (-1, None, None)]


class Model(object):
    def __init__(self, lists):
        self.lists = [list(x) for x in lists]
        self.parents = {}
        for k, x in enumerate(self.lists):
            for i in x:
                self.parents[i] = k
        self.texts = list(LEAVES)

    def key(self):
        return (tuple(map(tuple, self.lists)), tuple(sorted(self.parents.items())))

    def equal(self, i, j):
        """Whether two objects are equal (tree comparison)."""
        if i == j:
            return True
        if i < 3 or j < 3:
            return False    # The containers are of different classes.
        return self.texts[i - 3] == self.texts[j - 3]

    def below(self, i, seen=()):
        out = {i}
        if i < 3:
            for k in self.lists[i]:
                if k not in seen:
                    out |= self.below(k, seen + (i,))
        return out

    def new(self, x):
        """Index for an item; text is turned into a literal."""
        if isinstance(x, str):
            self.texts.append(x)
            return len(self.texts) + 2
        return x

    def update(self, k, new):
        old, self.lists[k] = self.lists[k], new
        for i in old:
            if i not in new and self.parents.get(i) == k:
                self.parents[i] = None
        return old

    def adopt(self, k, items):
        for i in items:
            self.parents[i] = k

    def allowed(self, k, items, new):
        """No duplicates and no cycles."""
        if len(set(new)) != len(new):
            return False
        return not any([k in self.below(i) for i in items])

    def do(self, op):
        """Returns (result kind, value) or None if the operation isn't modelled."""
        k, what = op[0], op[1]
        new = list(self.lists[k])
        items = []
        if any([x in ("none", "int", "object") for x in flat(op[2:])]):
            return "TypeError", None
        try:
            if what == "append":
                items = [self.new(op[2])]
                new += items
            elif what == "insert":
                items = [self.new(op[3])]
                new.insert(op[2], items[0])
            elif what == "pop":
                value = new.pop(*op[2])
                self.update(k, new)
                return "ok", value
            elif what == "remove":
                found = [i for i in new if self.equal(i, op[2])]
                if not found:
                    return "ValueError", None
                new.remove(found[0])
            elif what == "set":
                items = [self.new(op[3])]
                new[op[2]] = items[0]
            elif what == "slice":
                items = [self.new(x) for x in op[3]]
                new[slice(*op[2])] = items
            elif what in ("extend", "iadd"):
                items = [self.new(x) for x in op[2]]
                new += items
            elif what == "clear":
                new = []
            elif what == "children":
                items = [self.new(x) for x in op[2]]
                new = list(items)
        except (IndexError, ValueError) as e:
            return type(e).__name__, None
        if not self.allowed(k, items, new):
            return None
        self.update(k, new)
        self.adopt(k, items)
        return "ok", None

    def consistent(self, k=None):
        """Whether every child is in one list only, and has it as its parent."""
        count = {}
        for c, x in enumerate(self.lists):
            for i in x:
                count[i] = count.get(i, 0) + 1
                if self.parents.get(i) != c:
                    return False
        return all([n == 1 for n in count.values()])

    def node(self, i):
        if i >= 3:
            return model.L(self.texts[i - 3])
        kids = [self.node(j) for j in self.lists[i]]
        if not kids or i == 2 and len(kids) > 1 or None in kids:
            return None
        return (CONTAINERS[i], None, tuple(kids), "")

    def leaves(self, i):
        if i >= 3 or not self.lists[i]:
            return [i]
        return sum([self.leaves(j) for j in self.lists[i]], [])

    def ancestors(self, i):
        out = []
        while self.parents.get(i) is not None:
            i = self.parents[i]
            out.append(i)
        return out


def flat(x):
    out = []
    for y in x:
        if isinstance(y, (tuple, list)):
            out += flat(y)
        elif y is not None and not isinstance(y, int):
            out.append(y)
    return out


class Real(object):
    def __init__(self, lists):
        import jsgf
        leaves = [jsgf.Literal(t) for t in LEAVES]
        self.objects = [jsgf.Sequence(), jsgf.AlternativeSet(),
                        jsgf.OptionalGrouping("x")] + leaves
        self.objects[2].children.clear()
        for k in (2, 1, 0):
            self.objects[k].children = [self.objects[i] for i in lists[k]]

    def items(self, xs):
        return [self.item(x) for x in xs]

    def item(self, x):
        special = {"none": None, "int": 1, "object": object()}
        if isinstance(x, str):
            return special.get(x, x)
        return self.objects[x]

    def do(self, op):
        k, what = op[0], op[1]
        e = self.objects[k]
        c = e.children
        value = None
        try:
            if what == "append":
                c.append(self.item(op[2]))
            elif what == "insert":
                c.insert(op[2], self.item(op[3]))
            elif what == "pop":
                value = c.pop(*op[2])
            elif what == "remove":
                c.remove(self.item(op[2]))
            elif what == "set":
                c[op[2]] = self.item(op[3])
            elif what == "slice":
                c[slice(*op[2])] = self.items(op[3])
            elif what == "extend":
                # Any iterable can be used.
                c.extend(iter(self.items(op[2])))
            elif what == "iadd":
                e.children += self.items(op[2])
            elif what == "clear":
                c.clear()
            elif what == "children":
                e.children = op[3](self.items(op[2])) if len(op) > 3 else \
                    self.items(op[2])
        except (TypeError, IndexError, ValueError) as x:
            return type(x).__name__, None
        return "ok", value


def prime(r):
    """Match everything, so that everything is cached."""
    for i in (0, 1, 2):
        try:
            r.objects[i].matches("a")
        except Exception:       # An empty set or so.
            pass


def compare(m, r, structure):
    import jsgf
    msgs = []
    # New literals.
    for k in (0, 1, 2):
        for i, x in zip(m.lists[k], r.objects[k].children):
            while len(r.objects) <= i:
                r.objects.append(None)
            if r.objects[i] is None:
                r.objects[i] = x
                if type(x) is not jsgf.Literal or x.text != m.texts[i - 3]:
                    msgs.append("%r was added as %r" % (m.texts[i - 3], x))

    def name(x):
        for i, o in enumerate(r.objects):
            if o is x and x is not None:
                return i
        return repr(x)
    for k in (0, 1, 2):
        c = r.objects[k].children
        got = [name(x) for x in c]
        if got != m.lists[k]:
            msgs.append("children of %d are %s instead of %s" % (k, got, m.lists[k]))
            continue
        if len(c) != len(got) or [name(c[i]) for i in range(len(got))] != got or \
                [name(x) for x in c[::-1]] != got[::-1] or not c == list(c) or \
                c != list(c) or repr(c) != repr(list(c)) or \
                [name(x) for x in c + [r.objects[0]]] != got + [0] or \
                [name(x) for x in c + c] != got + got:
            msgs.append("children of %d are inconsistent" % k)
        if type(c) is not jsgf.expansions.ChildList:
            msgs.append("children of %d are a %s" % (k, type(c).__name__))
        for x in range(len(r.objects)):
            if r.objects[x] is None or x < 3:
                continue
            first = [j for j, i in enumerate(got) if m.equal(i, x)]
            try:
                index = c.index(r.objects[x])
            except ValueError:
                index = None
            if index != (first[0] if first else None) or \
                    (r.objects[x] in list(c)) != bool(first):
                msgs.append("index of %d in children of %d is %s" % (x, k, index))
    if msgs:
        return msgs
    for i, x in enumerate(r.objects):
        if x is None:
            continue
        want = m.parents.get(i)
        if (x.parent is None) != (want is None) or \
                want is not None and x.parent is not r.objects[want]:
            msgs.append("parent of %d is %s instead of %s" % (i, name(x.parent), want))
    if msgs:
        return msgs
    if not m.consistent():
        return []
    for i, x in enumerate(r.objects):
        if x is None:
            continue
        up = m.ancestors(i)
        root = up[-1] if up else i
        if x.root_expansion is not r.objects[root]:
            msgs.append("root of %d is %s instead of %s" % (
                i, name(x.root_expansion), root))
        if x.is_optional != (i == 2 or 2 in up):
            msgs.append("%d is optional: %s" % (i, x.is_optional))
        if [name(y) for y in x.leaves] != m.leaves(i):
            msgs.append("leaves of %d are %s instead of %s" % (
                i, [name(y) for y in x.leaves], m.leaves(i)))
        if i < 3 and up == [] and structure:
            node = m.node(i)
            if node is None or not model.unambiguous(node):
                continue
            fresh = model.build(node)
            if x.compile() != fresh.compile():
                msgs.append("%d compiles to %r instead of %r" % (
                    i, x.compile(), fresh.compile()))
            lang = model.Language(())
            for s in SPEECH:
                want = lang.accepts(node, tuple(s.split()))
                if want and s == "":
                    continue
                # A rule matches if everything was matched.
                got = jsgf.Rule("r", True, x).matches(s)
                if got != want:
                    msgs.append("%r matches %d, %s: %s" % (s, i, model.show(node),
                                                           got))
    return msgs


def operations(k, few=False):
    items = [i for i in range(7) if i != k and not (few and i in (4, 5))] + ["d"]
    for x in items:
        yield (k, "append", x)
        yield (k, "insert", 0, x)
        yield (k, "insert", -1, x)
        yield (k, "insert", 9, x)
        yield (k, "set", 0, x)
        yield (k, "set", -1, x)
        yield (k, "set", 3, x)
        if x != "d":
            yield (k, "remove", x)
    for i in ((), (0,), (1,), (-2,), (7,)):
        yield (k, "pop", i)
    yield (k, "clear")
    groups = [()] + [(x,) for x in items] + [
        (x, y) for x, y in itertools.permutations(items[-2 if few else -5:], 2)]
    for g in groups:
        yield (k, "extend", g)
        yield (k, "children", g)
        if len(g) < 2:
            yield (k, "iadd", g)
    for s in SLICES[1:6:2] if few else SLICES:
        for g in groups:
            yield (k, "slice", s, g)
    for bad in ("none",) if few else ("none", "int", "object"):
        yield (k, "append", bad)
        yield (k, "insert", 0, bad)
        yield (k, "set", 0, bad)
        for g in ((bad,), (4, bad), (bad, 4)):
            yield (k, "extend", g)
            yield (k, "iadd", g)
            yield (k, "children", g)
            yield (k, "slice", (0, 1, None), g)
            yield (k, "slice", (None, None, None), g)


STARTS = [
    ((3, 4), (3, 6), ()), ((3, 4), (), (3,)), ((3, 4), (6, 4), (3,)),
    ((3, 4), (), ()), ((3, 4, 5, 6), (), ()), ((), (), ()), ((3, 1), (4, 6), ()),
    ((3, 2, 6), (), (4,)), ((1, 6), (2, 4), (3,)), ((3,), (4,), (6,)),
    ((4,), (0, 3), (6,)), ((5, 3, 4), (6,), ()), ((3, 4, 6, 5), (), ()),
]


def start(lists):
    # The lists of later containers are set first, so earlier ones are the parents.
    m, r = Model(lists), Real(lists)
    for k in (2, 1, 0):
        m.adopt(k, m.lists[k])
    return m, r


def run_ops(lists, ops, primed):
    m, r = start(lists)
    for op in ops:
        if primed:
            prime(r)
        if m.do(op) is None:
            return None
        r.do(op)
        compare(m, r, False)
    return m, r


def judge(res, case):
    lists = model.spec(case["lists"])
    first = [model.spec(o) for o in case["first"]]
    msgs, seen = [], set()
    for op in itertools.chain.from_iterable([operations(k, case.get("few"))
                                             for k in (0, 1, 2)]):
        state = run_ops(lists, first, case["primed"])
        if state is None:
            return []
        m, r = state
        if case["primed"]:
            prime(r)
        want = m.do(op)
        if want is None:
            continue
        kind, value = r.do(op)
        res.transitions += 1
        if kind != want[0]:
            msgs.append("%s, %s: %s instead of %s" % (first, op, kind, want[0]))
        elif want[1] is not None and r.objects[want[1]] is not value:
            msgs.append("%s, %s returns %s" % (first, op, value))
        else:
            key = (m.key(), op[0], op[1], len(op[-1]) if op[1] == "slice" else 0)
            msgs += ["%s, %s: %s" % (first, op, x)
                     for x in compare(m, r, key not in seen)]
            seen.add(key)
        if len(msgs) > 4:
            break
    res.states += 1
    res.traces += 1
    res.outcome("%d operations" % (len(first) + 1))
    return msgs


def cases(ctx):
    for lists in STARTS:
        for primed in (False, True):
            yield {"lists": lists, "first": [], "primed": primed}
    # Pairs of operations.
    for lists in (STARTS[1:4] if ctx.quick else STARTS):
        seen = set()
        for op in itertools.chain.from_iterable([operations(k) for k in (0, 1, 2)]):
            m, _ = start(lists)
            if m.do(op) is None or m.key() in seen:
                continue
            seen.add(m.key())
            yield {"lists": lists, "first": [op], "primed": True, "few": ctx.quick}


def judge_children(res, case):
    """Children are expansions or text, in lists and tuples; constructors copy them."""
    import jsgf
    msgs = []
    classes = {"S": jsgf.Sequence, "A": jsgf.AlternativeSet, "O": jsgf.OptionalGrouping,
               "G": jsgf.RequiredGrouping, "R": jsgf.Repeat, "K": jsgf.KleeneStar}
    cls = classes[case["kind"]]
    for n in (range(4) if case["kind"] in "SAG" else (1,)):
        for which in itertools.product(range(3), repeat=n):
            literals = [jsgf.Literal("w%d" % i) for i in range(n)]
            args = [["w%d" % i, literals[i], jsgf.Sequence(literals[i])][w]
                    for i, w in enumerate(which)]
            e = cls(*args)
            res.transitions += 1
            got = [c for c in e.children]
            if len(got) != n or any([c.parent is not e for c in got]) or \
                    any([w and c is not a for w, c, a in zip(which, got, args)]) or \
                    any([not w and (type(c) is not jsgf.Literal or c.text != a)
                         for w, c, a in zip(which, got, args)]):
                msgs.append("%s of %s has children %s" % (case["kind"], args, got))
            for make in (list, tuple):
                old = list(e.children)
                given = make(reversed(old))
                e.children = given
                if list(map(id, e.children)) != list(map(id, given)) or \
                        any([c.parent is not e for c in old]):
                    msgs.append("children set to %s are %s" % (given, e.children))
            for bad in (None, 1, "ab", {"a"}, iter([]), [None], ("a", 2)):
                old = list(e.children)
                try:
                    e.children = bad
                    msgs.append("children set to %r" % (bad,))
                except TypeError:
                    pass
                if list(map(id, e.children)) != list(map(id, old)) or \
                        any([c.parent is not e for c in old]):
                    msgs.append("children changed when set to %r" % (bad,))
            old = list(e.children)
            e.children = []
            if len(e.children) or any([c.parent is not None for c in old]):
                msgs.append("children were kept: %s" % e.children)
    for bad in (None, 1, object(), [], ["a"]):
        try:
            cls(bad)
            msgs.append("%s can be made of %r" % (case["kind"], bad))
        except TypeError:
            pass
        x = jsgf.Literal("a")
        try:
            x.parent = bad if bad is not None else 5
            msgs.append("the parent can be %r" % (bad,))
        except TypeError:
            if x.parent is not None:
                msgs.append("the parent is %r" % x.parent)
    res.states += 1
    res.outcome(case["kind"])
    return msgs[:5]


def judge_long(res, case):
    """One operation on a list of n children, at every position."""
    import jsgf
    n, kind = case["n"], case["kind"]
    msgs = []
    cls = {"S": jsgf.Sequence, "A": jsgf.AlternativeSet}[kind]
    around = list(range(-n - 2, n + 3))
    ends = [None] + around

    def attempt(f):
        try:
            return "ok", f()
        except (IndexError, ValueError, TypeError) as e:
            return type(e).__name__, None

    def check(what, f, new=0):
        """Do f to the real children and a Python list of the same expansions."""
        e = cls(*["ab"[i % 2] for i in range(n)])
        if what.startswith("[") and "=" not in what:
            # See which ones they are.
            for i, x in enumerate(e.children):
                x.text = "w%d" % i
        made = [jsgf.Literal("new%d" % i) for i in range(new)]
        want = list(e.children)
        old = list(want)
        a = attempt(lambda: f(want, made))
        b = attempt(lambda: f(e.children, made))
        res.transitions += 1
        if a[0] != b[0] or a[1] is not b[1] and a[1] != b[1]:
            msgs.append("%s of %d children: %s instead of %s" % (what, n, b, a))
        elif [id(x) for x in e.children] != [id(x) for x in want]:
            msgs.append("%s of %d children: children are %s instead of %s" % (
                what, n, e.children, want))
        else:
            for x in old + made:
                parent = e if any([x is y for y in want]) else None
                if x.parent is not parent:
                    msgs.append("%s of %d children: parent of %s is %s" % (
                        what, n, x, x.parent))

    def slot(i):
        def f(c, new):
            c[i] = new[0]
        return f
    for i in around:
        check("insert(%d)" % i, lambda c, new: c.insert(i, new[0]), 1)
        check("pop(%d)" % i, lambda c, new: c.pop(i))
        check("[%d]" % i, lambda c, new: c[i])
        check("[%d] = " % i, slot(i), 1)
        for x in ("a", "b", "c"):
            check("index(%r, %d)" % (x, i), lambda c, new: c.index(jsgf.Literal(x), i))
            for j in ends:
                check("index(%r, %d, %s)" % (x, i, j),
                      lambda c, new: c.index(*(jsgf.Literal(x), i, j)[:2 + (
                          j is not None or isinstance(c, jsgf.expansions.ChildList))]))
    for x in ("a", "b", "c"):
        check("remove(%r)" % x, lambda c, new: c.remove(jsgf.Literal(x)))
        check("in", lambda c, new: jsgf.Literal(x) in c)
    for k in range(3):
        def iadd(c, new):
            c += new
        check("extend(%d)" % k, lambda c, new: c.extend(new), k)
        check("+= %d" % k, iadd, k)
        check("append", lambda c, new: [c.append(x) for x in new] and None, k)
    ends = [None] + list(range(-n - 1, n + 2))
    for key in itertools.product(ends, ends, (None, 1, 2, -1, -2, 0)):
        def put(c, new):
            c[slice(*key)] = new
        check("[%s:%s:%s]" % key, lambda c, new: [x.text for x in c[slice(*key)]])
        for k in range(0, n + 2 if n < 4 else 3):
            check("[%s:%s:%s] = %d" % (key + (k,)), put, k)
        if len(msgs) > 4:
            break
    # Children of another expansion.
    for i in range(n):
        for how in ("extend", "append", "insert", "iadd", "slice", "set", "children"):
            e, other = cls(*["ab"[i % 2] for i in range(n)]), jsgf.Sequence("z", "y")
            x = e.children[i]
            want = list(other.children) + [x]
            if how == "extend":
                other.children.extend([x])
            elif how == "append":
                other.children.append(x)
            elif how == "insert":
                other.children.insert(0, x)
                want = want[2:] + want[:2]
            elif how == "iadd":
                other.children += [x]
            elif how == "slice":
                other.children[2:] = [x]
            elif how == "set":
                other.children[1] = x
                want = [want[0], x]
            else:
                other.children = want
            res.transitions += 1
            if list(map(id, other.children)) != list(map(id, want)) or \
                    [c for c in other.children if c.parent is not other]:
                msgs.append("%s of child %d of another list: children are %s with "
                            "parents %s" % (how, i, other.children,
                                            [c.parent for c in other.children]))
            # Removing it from the first list doesn't change its parent.
            e.children.pop(i)
            if x.parent is not other:
                msgs.append("%s of child %d: its parent is %s after removing it from "
                            "the first list" % (how, i, x.parent))
    res.states += 1
    res.traces += 1
    res.outcome("%d children" % n)
    return msgs[:5]


SPACES = [
    ("operations", judge, cases, "all operations with all arguments from 13 states of "
     "three lists, all pairs of operations (states merged) from 3 (13) of them, the second with fewer arguments"),
    ("positions", judge_long, lambda ctx: [
        {"n": n, "kind": k} for n in range(ctx.pick(6, 9)) for k in "SA"],
     "every operation at every position and slice of lists of up to 5 (8) children"),
    ("constructors", judge_children, lambda ctx: [{"kind": k} for k in "SAGORK"],
     "up to 3 children, given as text, leaves and trees; invalid children"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "expansions are in a list once and are no descendants of themselves",
        "matching is judged for trees that are unambiguous (see C01)",
    ]
