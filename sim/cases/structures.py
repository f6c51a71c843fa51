"""Data structures: histories of operations against reference models."""

from itertools import islice

from ..engine import E, touch
from ..env import freeze, fresh, namer
from ..scenario import Case, check, expect, wrong
from ..kernel import Violation


class CallerError(Exception):
    """Raised by something the caller supplied, and handled by the caller."""


def survive(fn, what):
    """fn() must fail with CallerError (and the history goes on)."""
    try:
        fn()
    except CallerError:
        E.recovered("caller-error")
        return
    raise Violation("swallowed-failure", "%s: caller's error was lost" % what)


def rejected(exc, fn, what):
    """fn() must be refused with exc (and the history goes on)."""
    expect(exc, fn, what)
    E.recovered("rejected-operation")


def failing(items, k):
    """Iterate over items, failing before the k-th."""
    for i, x in enumerate(items):
        if i == k:
            raise CallerError()
        yield x
    raise CallerError()


def build(make, items, kind, *rest):
    """A structure built from items, which the caller uses for other things
    afterwards."""
    if kind == 0:
        return make(iter(items), *rest)
    own = (list, set, dict.fromkeys)[kind - 1](items)
    made = make(own, *rest)
    if len(own) != len((list, set, dict.fromkeys)[kind - 1](items)):
        wrong("the caller's items were changed")
    own.clear()
    return made


class History(Case):
    def describe(self):
        return repr(self.script)

    def fingerprint(self):
        return freeze(self.script)


def extent(sim, names, steps):
    """How many names and steps a history has; now and then many more."""
    if sim.flag(1, 24):
        return names * 5, 3 * steps + sim.choose(3 * steps)
    return names, 2 + sim.choose(steps)


# -- integer heaps -------------------------------------------------------------------

class HeapHistory(History):
    kind = None

    def __init__(self, sim):
        self.kind, self.order, self.top = sim.pick((
            ("bits", 0, 40), ("bits", 0, 700), ("flat", 1, 3), ("flat", 2, 15),
            ("flat", 3, 255), ("flat", 4, 65535), ("flat", 5, (1 << 32) - 1),
            ("flat", 6, (1 << 64) - 1), ("linear", 0, 50),
            ("auto", 2, 15), ("auto", 3, 255), ("auto", 4, 65535),
            ("auto", 5, (1 << 32) - 1)))
        # values that share high and low halves
        half = 1 << max(0, (self.top.bit_length() // 2))
        n, steps = extent(sim, 3, 24)
        base = [sim.choose(min(self.top + 1, 1 << 30)) for _ in range(n)]
        hi = [sim.choose(half) for _ in range(n - 1)]
        lo = [sim.choose(half) for _ in range(3)]
        pool = base + [min(self.top, h * half + l) for h in hi for l in lo] \
            + [0, self.top]
        style = sim.choose(3)
        self.script = []
        for _ in range(steps):
            op = sim.pick((("add", "add", "remove", "min"),
                           ("add", "remove", "popmin", "min"),
                           ("add", "remove", "miss", "range"))[style])
            x = sim.pick(pool) if sim.flag(7, 8) \
                else sim.choose(min(self.top + 1, 1 << 60))
            self.script.append((op, x))

    def describe(self):
        return "%s %d %r" % (self.kind, self.order, self.script)

    def make(self, cx):
        H = cx.L.integer_heap
        if self.kind == "bits":
            return H.BitVectorHeap()
        if self.kind == "flat":
            return H.FlatHeap(self.order)
        if self.kind == "linear":
            return H.LinearHeap()
        return H.IntegerHeap(self.order)

    def body(self, cx):
        Q = self.make(cx)
        S = set()
        for op, x in self.script:
            if op == "add":
                Q.add(x)
                S.add(x)
            elif op == "remove":
                if S:
                    x = sorted(S)[x % len(S)]
                    Q.remove(x)
                    S.remove(x)
            elif op == "popmin":
                if S:
                    x = Q.min()
                    check(x == min(S), "min is %r, not %r" % (x, min(S)))
                    Q.remove(x)
                    S.remove(x)
            elif op == "miss":
                if x not in S:
                    if self.kind == "linear":
                        rejected(KeyError, lambda: Q.remove(x), "remove")
                    else:
                        Q.remove(x)
                        E.recovered("rejected-operation")
            elif op == "range":
                bits = self.kind == "bits" or (self.kind == "auto" and
                                               self.order <= 3)
                if self.kind == "flat" or (self.kind == "auto" and not bits):
                    bad = (-1, self.top + 1, -x - 1)[x % 3]
                    rejected(ValueError, lambda: Q.add(bad), "add %d" % bad)
                    rejected(ValueError, lambda: Q.remove(bad), "remove")
                elif bits:
                    rejected(ValueError, lambda: Q.add(-1 - x % 3), "add -1")
            check(bool(Q) == bool(S), "truth value with %d keys" % len(S))
            if S:
                m = Q.min()
                check(m == min(S), "after %s %r min is %r, not %r"
                      % (op, x, m, min(S)))
            else:
                rejected(ValueError, lambda: Q.min(), "min of empty heap")
            yield
        # drain
        out = []
        while Q:
            check(len(out) < len(S), "heap does not empty")
            m = Q.min()
            Q.remove(m)
            out.append(m)
            yield
        check(out == sorted(S), "drained %r, not %r" % (out, sorted(S)))


# -- bucket queue ----------------------------------------------------------------------

class Grade(int):
    """A caller's own kind of integer."""


class BucketHistory(History):
    def __init__(self, sim):
        n, steps = extent(sim, 7, 24)
        names = namer(sim, n)
        self.names = names
        self.script = []
        span = sim.pick((3, 12, 60))
        off = sim.pick((0, -5, 100))
        for _ in range(steps):
            op = sim.pick(("set", "set", "del", "next", "next", "get", "bad",
                           "restart", "items"))
            self.script.append((op, sim.choose(len(names)),
                                off + sim.choose(span)))

    def body(self, cx):
        Q = cx.L.bucketqueue.BucketQueue()
        M = {}
        it, pairs = iter(Q), False
        for op, i, p in self.script:
            x = fresh(self.names[i])
            if op == "set":
                Q[x] = Grade(p) if (i + p) % 5 == 0 else \
                    bool(p) if p in (0, 1) and i % 2 else p
                M[x] = p
            elif op == "del":
                if x in M:
                    del Q[x]
                    del M[x]
                else:
                    rejected(KeyError, lambda: Q.__delitem__(x), "del")
            elif op == "get":
                if x in M:
                    check(Q[x] == M[x], "priority of %r" % (x,))
                else:
                    rejected(KeyError, lambda: Q[x], "lookup")
            elif op == "bad":
                def bad():
                    Q[x] = (p + 0.5, float(p), str(p), None)[i % 4]
                rejected(TypeError, bad, "priority that is no integer")
            elif op == "restart":
                it, pairs = iter(Q), False
            elif op == "items":
                it, pairs = Q.items(), True
            elif op == "next":
                try:
                    y = next(it)
                except StopIteration:
                    check(not M, "iteration stopped with %d items" % len(M))
                    it, pairs = iter(Q), False
                else:
                    if pairs:
                        y, q = y
                        check(y in M and M[y] == q,
                              "item %r delivered with priority %r" % (y, q))
                    check(y in M, "delivered %r, which is not queued" % (y,))
                    check(M[y] == min(M.values()),
                          "delivered %r of priority %r, minimum is %r"
                          % (y, M[y], min(M.values())))
                    del M[y]
            check(len(Q) == len(M), "length %d, not %d" % (len(Q), len(M)))
            for z in map(fresh, self.names):
                check((z in Q) == (z in M), "membership of %r" % (z,))
                if z in M:
                    check(Q[z] == M[z], "priority of %r" % (z,))
            yield
        last = None
        n = len(M)
        for y, q in Q.items():
            check(M.pop(y, None) == q, "wrong pair %r,%r" % (y, q))
            check(last is None or q >= last, "priorities out of order")
            last = q
            yield
        check(not M, "%d of %d items delivered" % (n - len(M), n))


# -- union-find -------------------------------------------------------------------------

class UnionHistory(History):
    def __init__(self, sim):
        n, steps = extent(sim, 10, 20)
        self.names = namer(sim, n)
        self.script = []
        for _ in range(steps):
            op = sim.pick(("union", "union", "find", "list", "many"))
            k = 2 if op == "union" else 1 + sim.choose(4)
            self.script.append((op, [sim.choose(n) for _ in range(k)]))

    def body(self, cx):
        X = cx.L.union_find.UnionFind()
        group = {}
        names = {}
        for op, idx in self.script:
            xs = [fresh(self.names[i]) for i in idx]
            if op in ("union", "many"):
                for x in xs:
                    group.setdefault(x, frozenset([x]))
                merged = frozenset().union(*[group[x] for x in xs])
                changed = any([group[x] != merged for x in merged])
                for x in merged:
                    group[x] = merged
                if changed:
                    names.pop(merged, None)
                X.union(*xs)
            elif op == "find":
                for x in xs:
                    group.setdefault(x, frozenset([x]))
                    r = X[x]
                    check(r in group[x], "name %r of the set of %r" % (r, x))
            else:
                got = list(X)
                check(len(got) == len(group) and set(got) == set(group),
                      "listing %r" % (got,))
            # every set has one name, which is a member and does not change
            for x in list(group):
                r = X[fresh(x)]
                g = group[x]
                check(r in g, "set %r has name %r" % (set(g), r))
                if g in names:
                    check(names[g] == r, "set %r was %r and is now %r"
                          % (set(g), names[g], r))
                names[g] = r
            yield


class UnionQueries(History):
    """Finds on one structure by several callers at once."""

    shared_survives = True

    def __init__(self, sim):
        n, steps = extent(sim, 12, 14)
        self.names = namer(sim, n)
        self.script = [[sim.choose(n), sim.choose(n)]
                       for _ in range(steps)]
        self.queries = [sim.choose(n) for _ in range(2 + sim.choose(8))]
        group = {x: frozenset([x]) for x in self.names}
        for a, b in self.script:
            m = group[self.names[a]] | group[self.names[b]]
            for x in m:
                group[x] = m
        self.group = group

    def prepare(self, cx):
        X = cx.L.union_find.UnionFind()
        for x in self.names:
            X[x]
        for a, b in self.script:
            X.union(fresh(self.names[a]), fresh(self.names[b]))
        return X

    def body(self, cx):
        X = cx.shared
        seen = {}
        for i in self.queries:
            x = fresh(self.names[i])
            r = X[x]
            check(r in self.group[x], "name %r of the set of %r" % (r, x))
            check(seen.setdefault(self.group[x], r) == r,
                  "name of a set changed between finds")
            yield


# -- sequences -----------------------------------------------------------------------------

class Item:
    """Sequence member with a key; two items may share one, some are false."""

    def __init__(self, k, n):
        self.k = k
        self.n = n

    def __repr__(self):
        return "<%s.%d>" % (self.k, self.n)

    def __bool__(self):
        return self.n % 2 == 1


def item_key(x):
    touch("key function")
    return x.k


class SequenceHistory(History):
    flavour = ("plain",)

    def __init__(self, sim):
        self.cls = sim.pick(self.classes)
        self.keyed = sim.flag(1, 2)
        n, steps = extent(sim, 8, 30)
        if self.keyed:
            self.pool = [Item("k%d" % (i % n), i // n) for i in range(2 * n)]
        else:
            self.pool = namer(sim, n)
        m = len(self.pool)
        self.initial = list(range(sim.choose(5)))
        self.failat = sim.choose(4) if sim.flag(1, 8) else None
        self.kind = sim.choose(2)
        self.script = []
        ops = ["append", "after", "before", "remove", "pred", "succ", "index",
               "again", "ghost"]
        if self.ordered:
            ops += ["before", "after", "cmp", "cmp"]
        hot = sim.flag(1, 3)
        for _ in range(steps):
            op = sim.pick(ops)
            self.script.append((op, 0 if hot and sim.choose(4)
                                else sim.choose(m), sim.choose(m)))

    classes = ("Sequence",)
    ordered = False

    def describe(self):
        return "%s keyed=%s initial=%r %r" % (self.cls, self.keyed,
                                              self.initial, self.script)

    def fingerprint(self):
        return freeze(self.script)

    def module(self, cx):
        return cx.L.sequence

    def body(self, cx):
        mod = self.module(cx)
        cls = getattr(mod, self.cls)
        Err = cx.L.sequence.SequenceError
        first = [self.pool[i] for i in self.initial]
        arg = (item_key,) if self.keyed else ()
        if self.failat is not None:
            survive(lambda: cls(failing(first, self.failat), *arg),
                    "building from an iterable that fails")
        S = build(cls, first, self.kind, *arg)
        key = (lambda x: x.k) if self.keyed else (lambda x: x)
        L = list(first)

        def find(x):
            for i, y in enumerate(L):
                if key(y) == key(x):
                    return i
            return None
        for op, a, b in self.script:
            x = self.pool[a] if self.keyed else fresh(self.pool[a])
            i = find(x)
            if op == "append":
                if i is None:
                    S.append(x)
                    L.append(x)
                elif L:
                    rejected(Err, lambda: S.append(x), "append twice")
            elif op in ("after", "before"):
                fn = S.insertAfter if op == "after" else S.insertBefore
                y = self.pool[b]
                j = find(y)
                if i is not None and j is None:
                    fn(x, y)
                    L.insert(i + (op == "after"), y)
                elif i is not None and j is not None:
                    rejected(Err, lambda: fn(x, y), "insert twice")
                else:
                    rejected(KeyError if j is None else (KeyError, Err),
                             lambda: fn(x, y),
                             "insert next to an absent item")
            elif op == "remove":
                if i is not None:
                    S.remove(x)
                    del L[i]
                else:
                    rejected(KeyError, lambda: S.remove(x), "remove absent")
            elif op == "pred":
                if i is not None:
                    check(S.predecessor(x) == L[i - 1],
                          "predecessor of %r" % (x,))
                else:
                    rejected(KeyError, lambda: S.predecessor(x), "absent")
            elif op == "succ":
                if i is not None:
                    check(S.successor(x) == L[(i + 1) % len(L)],
                          "successor of %r" % (x,))
                else:
                    rejected(KeyError, lambda: S.successor(x), "absent")
            elif op == "index":
                if b < len(L):
                    check(S[b] == L[b], "item %d is %r, not %r"
                          % (b, S[b], L[b]))
                else:
                    rejected(IndexError, lambda: S[b], "index %d of %d"
                             % (b, len(L)))
            elif op == "cmp" and self.ordered:
                y = self.pool[b]
                j = find(y)
                if i is not None and j is not None:
                    check(S.cmp(x, y) == (i > j) - (i < j),
                          "cmp of positions %d and %d gives %r"
                          % (i, j, S.cmp(x, y)))
                else:
                    rejected(KeyError, lambda: S.cmp(x, y),
                             "position of an absent item")
            got = list(islice(S, len(L) + 2))
            check(got == L,
                  "after %s the sequence is %r, not %r" % (op, got, L))
            check(len(S) == len(L), "length %d" % len(S))
            yield
        if self.ordered:
            for i, x in enumerate(L):
                for j, y in enumerate(L):
                    check(S.cmp(x, y) == (i > j) - (i < j),
                          "cmp of positions %d and %d" % (i, j))
        check(repr(S).endswith("Sequence([%s])" % ",".join(map(repr, L))),
              "repr %r" % (S,))


class OrderedHistory(SequenceHistory):
    classes = ("SimpleOrderedSequence", "LogarithmicOrderedSequence")
    ordered = True

    def module(self, cx):
        return cx.L.ordered_sequence


class OrderedHotspot(History):
    """Many insertions at one place, which force renumbering."""

    def __init__(self, sim):
        self.cls = sim.pick(OrderedHistory.classes)
        self.keyed = sim.flag(1, 2)
        self.script = []
        spot = sim.choose(3)
        for i in range(20 + sim.choose(120)):
            self.script.append((sim.choose(8) == 7, spot, sim.choose(1000)))

    def describe(self):
        return "%s keyed=%s spot=%r n=%d" % (self.cls, self.keyed,
                                             self.script[0][1],
                                             len(self.script))

    def body(self, cx):
        cls = getattr(cx.L.ordered_sequence, self.cls)
        mk = (lambda i: Item("k%d" % i, 0)) if self.keyed else (lambda i: i)
        a = mk(0)
        S = cls([a], item_key) if self.keyed else cls([a])
        L = [a]
        at = 0
        for n, (elsewhere, spot, r) in enumerate(self.script):
            x = mk(n + 1)
            if elsewhere:
                i = r % len(L)
                S.insertAfter(L[i], x)
                L.insert(i + 1, x)
                at += i + 1 <= at
            elif spot == 0:
                S.insertBefore(L[0], x)
                L.insert(0, x)
                at += 1
            elif spot == 1:
                S.insertAfter(L[at], x)
                L.insert(at + 1, x)
            else:
                S.insertBefore(L[at], x)
                L.insert(at, x)
                at += 1
            i = r % len(L)
            j = (r // 7) % len(L)
            check(S.cmp(L[i], L[j]) == (i > j) - (i < j),
                  "cmp of positions %d and %d of %d" % (i, j, len(L)))
            if n % 8 == 0:
                yield
        for i in range(len(L) - 1):
            check(S.cmp(L[i], L[i + 1]) == -1 and S.cmp(L[i + 1], L[i]) == 1,
                  "neighbours %d,%d of %d are out of order"
                  % (i, i + 1, len(L)))
        got = list(islice(S, len(L) + 1))
        check(len(got) == len(L) and all([p is q for p, q in zip(got, L)]),
              "sequence differs")


# -- partition refinement --------------------------------------------------------------------

class PartitionHistory(History):
    def __init__(self, sim):
        n, steps = extent(sim, 9, 16)
        self.names = namer(sim, n)
        self.n0 = sim.choose(n)
        self.script = []
        for _ in range(steps):
            op = sim.pick(("refine", "refine", "add", "remove", "list",
                           "refine-fails", "bad"))
            self.script.append((op, [sim.choose(n) for _ in
                                     range(1 + sim.choose(6))]))
        self.freezes = sim.choose(3)
        self.kind = sim.choose(4)

    def body(self, cx):
        PR = cx.L.partition_refinement
        items = self.names[:self.n0]
        survive(lambda: PR.PartitionRefinement(failing(items, 2)),
                "partition of an iterable that fails")
        P = build(PR.PartitionRefinement, items, self.kind)
        model = [set(items)]

        def compare(what):
            got = list(P)
            check(len(P) == len(model) and len(got) == len(model),
                  "after %s there are %d sets, not %d"
                  % (what, len(got), len(model)))
            key = lambda s: sorted([self.names.index(x) for x in s])
            check(sorted(map(key, got)) == sorted(map(key, model)),
                  "after %s the partition is %r, not %r"
                  % (what, got, model))
            for s in model:
                for x in s:
                    x = fresh(x)
                    check(set(P[x]) == s, "set of %r is %r" % (x, P[x]))
                    check(any([P[x] is g for g in got]),
                          "set of %r is not listed" % (x,))
        compare("building")
        for op, idx in self.script:
            xs = [fresh(self.names[i]) for i in idx]
            if op == "refine":
                before = {x: P[x] for s in model for x in s}
                sets = list(P)
                pairs = P.refine(iter(xs))
                S = set(xs)
                want = {}
                new = []
                for s in model:
                    if s & S and s - S:
                        new += [s & S, s - S]
                        want[frozenset(s & S)] = frozenset(s - S)
                    else:
                        new.append(s)
                model = new
                got = {frozenset(a): frozenset(b) for a, b in pairs}
                check(len(list(pairs)) == len(want) and got == want,
                      "refine returned %r" % (pairs,))
                for a, b in pairs:
                    check(not any([a is s for s in sets]),
                          "first set of a pair is not new")
                    check(any([b is s for s in sets]),
                          "second set of a pair is not an old one")
            elif op == "refine-fails":
                survive(lambda: P.refine(failing(xs, len(xs) // 2)),
                        "refining by an iterable that fails")
            elif op == "add":
                x, y = xs[0], xs[-1]
                home = [s for s in model if y in s]
                if not home:
                    continue
                T = P[y]
                if any([x in s for s in model]):
                    rejected(PR.PartitionError, lambda: P.add(x, T),
                             "adding an element twice")
                else:
                    P.add(x, T)
                    home[0].add(x)
            elif op == "remove":
                x = xs[0]
                home = [s for s in model if x in s]
                if home:
                    P.remove(x)
                    home[0].remove(x)
                else:
                    rejected(KeyError, lambda: P.remove(x), "remove absent")
            elif op == "bad":
                rejected(PR.PartitionError,
                         lambda: P.add(("new",), set(xs)),
                         "adding to a foreign set")
                x = xs[0]
                if not any([x in s for s in model]):
                    rejected(KeyError, lambda: P[x], "lookup of absent")
            compare(op)
            yield
        if len([s for s in model if not s]) < 2:
            for _ in range(self.freezes):
                P.freeze()
                compare("freezing")
                check(all([isinstance(s, frozenset) for s in P]),
                      "sets are not frozen")
                yield
                self.frozen(cx, P, model)
                compare("an operation on frozen sets")

    def frozen(self, cx, P, model):
        """Nothing can be changed any more."""
        refused = (cx.L.partition_refinement.PartitionError, AttributeError,
                   TypeError)
        for s in model:
            for x in sorted(s, key=self.names.index)[:1]:
                rejected(refused, lambda: P.add(("new",), P[x]),
                         "adding to a frozen set")
                rejected(refused, lambda: P.remove(x),
                         "removing from a frozen set")
                if len(s) > 1:
                    rejected(refused, lambda: P.refine([x]),
                             "refining a frozen set")
                check(not list(P.refine(list(s))), "refining by a class")


# -- sorted sets ------------------------------------------------------------------------------

class Ranked:
    """Item whose position in the order can change."""

    def __init__(self, n, rank):
        self.n = n
        self.rank = rank

    def __repr__(self):
        return "r%d" % self.n

    def __hash__(self):
        return self.n * 7919

    def __eq__(self, other):
        return isinstance(other, Ranked) and other.n == self.n


class SortedHistory(History):
    def __init__(self, sim):
        self.mode = sim.choose(3)
        self.n, steps = extent(sim, 8, 24)
        self.names = namer(sim, self.n, orderable=True)
        self.initial = [sim.choose(self.n) for _ in range(sim.choose(6))]
        self.kind = sim.choose(4)
        self.script = []
        for _ in range(steps):
            op = sim.pick(("add", "add", "remove", "list", "list", "update",
                           "fail", "open", "pull", "has"))
            self.script.append((op, sim.choose(self.n), sim.choose(50)))

    def body(self, cx):
        SS = cx.L.sorted_set.SortedSet
        fuse = [None]
        if self.mode == 0:
            pool = self.names
            comparison = None
        else:
            pool = [Ranked(i, i * 3 % self.n) for i in range(self.n)] \
                if self.mode == 2 else self.names

            def comparison(a, b):
                touch("comparison")
                if fuse[0] is not None:
                    fuse[0] -= 1
                    if fuse[0] < 0:
                        raise CallerError()
                if self.mode == 2:
                    return (a.rank > b.rank) - (a.rank < b.rank)
                return (a < b) - (a > b)
        first = [pool[i] for i in self.initial]
        S = build(SS, first, self.kind, *([comparison] if comparison else []))
        M = set(first)

        def ordered():
            if self.mode == 0:
                return sorted(M)
            if self.mode == 1:
                return sorted(M, reverse=True)
            return sorted(M, key=lambda x: x.rank)

        def same(got, want):
            if self.mode == 2:
                return [x.rank for x in got] == [x.rank for x in want] and \
                    len(got) == len(set(got)) and set(got) == set(want)
            return got == want
        openit = None
        for op, i, r in self.script:
            x = pool[i] if self.mode == 2 else fresh(pool[i])
            if op == "add":
                S.add(x)
                M.add(x)
            elif op == "remove":
                if x in M:
                    S.remove(x)
                    M.remove(x)
                else:
                    rejected(KeyError, lambda: S.remove(x), "remove absent")
            elif op == "update":
                if self.mode == 2:
                    x.rank = r
                S.update(x)     # says nothing about an item not there
            elif op == "has":
                check((x in S) == (x in M), "membership of %r" % (x,))
            elif op == "list":
                got = list(S)
                check(same(got, ordered()), "listing %r, not %r"
                      % (got, ordered()))
            elif op == "fail" and comparison and len(M) > 2:
                fuse[0] = r % len(M)
                try:
                    got = list(S)
                except CallerError:
                    E.recovered("caller-error")
                else:
                    check(same(got, ordered()), "listing %r" % (got,))
                fuse[0] = None
            elif op == "open":
                # a listing in progress shows the set as it was
                openit = (iter(S), ordered(), [x.rank for x in ordered()]
                          if self.mode == 2 else None, [])
            elif op == "pull" and openit:
                it, want, ranks, got = openit
                for y in islice(it, 2):
                    got.append(y)
                if self.mode != 2:
                    check(got == want[:len(got)],
                          "open listing shows %r, not %r" % (got, want))
                else:
                    check(len(set(got)) == len(got) and
                          set(got) <= set(want), "open listing %r" % (got,))
            check(len(S) == len(M), "length %d, not %d" % (len(S), len(M)))
            yield
        if openit:
            it, want, ranks, got = openit
            got += list(it)
            check(len(got) == len(want) and set(got) == set(want),
                  "open listing gave %r, not %r" % (got, want))
        got = list(S)
        check(same(got, ordered()), "last listing %r, not %r"
              % (got, ordered()))


# -- frequency estimation ------------------------------------------------------------------------

class KeyOnce:
    """Stream element whose hash may fail when it is first looked at."""

    def __init__(self, v, fail):
        self.v = v
        self.fail = fail

    def __hash__(self):
        touch("element hash")
        if self.fail:
            raise CallerError()
        return hash(self.v)

    def __eq__(self, other):
        return isinstance(other, KeyOnce) and other.v == self.v

    def __repr__(self):
        return "K%r" % (self.v,)


class FrequencyStream(History):
    faults = frozenset(["interrupt", "memory", "close", "stack"])

    def __init__(self, sim):
        n, steps = extent(sim, 10, 60)
        self.k = 1 + sim.choose(6 if n == 10 else 30)
        self.acc = 1.0 / self.k
        if sim.flag(1, 3):
            self.acc = sim.pick((0.1, 0.3, 0.45, 0.07, 0.9))
            self.k = int(1. / self.acc)
        self.kind = sim.choose(4)
        alpha = 2 + sim.choose(n)
        self.every = 4
        if sim.flag(1, 40):
            # many counters
            self.acc = sim.pick((1 / 64., 0.006, 1 / 130., 0.003))
            self.k = int(1. / self.acc)
            alpha = self.k + 1 + sim.choose(40)
            steps = sim.between(3, 5) * alpha
            self.every = 99
        heavy = sim.choose(3)
        self.script = []
        for _ in range(steps):
            if sim.flag(1, 12):
                self.script.append(("bad", 0))
            elif heavy and sim.choose(3):
                self.script.append(("add", sim.choose(heavy)))
            else:
                self.script.append(("add", sim.choose(alpha)))

    def describe(self):
        return "k=%d %r" % (self.k, self.script)

    def element(self, v, fail=False):
        if self.kind == 0:
            return [] if fail else v
        if self.kind == 1:
            return {} if fail else "w%d" % v
        if self.kind == 3:
            return [] if fail else (None, 0, "", (), 0.5, ("", None))[v] \
                if v < 6 else v
        return KeyOnce(v, fail)

    def body(self, cx):
        F = cx.L.frequencyestimator.FrequencyEstimator(self.acc)
        true = {}
        total = 0
        for n, (op, v) in enumerate(self.script):
            if op == "bad":
                x = self.element(v, True)
                try:
                    F += x
                except (TypeError, CallerError):
                    E.recovered("rejected-operation")
                else:
                    wrong("unhashable element was accepted")
            else:
                x = self.element(v)
                G = F
                F += x
                check(F is G, "+= made another estimator")
                true[x] = true.get(x, 0) + 1
                total += 1
            if n % self.every == 3 or n == len(self.script) - 1:
                keys = list(F)
                check(len(keys) <= 1 / self.acc + 1e-6, "%d keys are kept" % len(keys))
                for y in true:
                    f = F[y] * total
                    check(abs(f - true[y]) <= total * self.acc + 1e-6,
                          "%r estimated at %r of %d, really %d"
                          % (y, f, total, true[y]))
                    if true[y] > total * self.acc + 1e-6:
                        check(y in keys, "frequent %r is not listed" % (y,))
                check(all([y in true for y in keys]), "unknown key listed")
                z = self.element(9999)
                check(F[z] == 0, "frequency of an unseen element")
            yield
