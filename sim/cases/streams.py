"""Lazy sequences: several open at once, pulled, abandoned and restarted."""

from bisect import bisect_left
from itertools import islice, product
from math import factorial

from ..engine import E, touch
from ..env import freeze, namer, scribble
from ..kernel import HarnessError, Violation
from ..scenario import Case, check, expect, wrong
from .structures import CallerError


# -- references --------------------------------------------------------------------------

def factor(n):
    F = {}
    p = 2
    while n > 1:
        while n % p == 0:
            F[p] = F.get(p, 0) + 1
            n //= p
        p += 1
    return F


def moebius(n):
    F = factor(n)
    return 0 if any([x > 1 for x in F.values()]) else (-1) ** len(F)


def practical(n):
    sums = 1
    for d in range(1, n + 1):
        if n % d == 0:
            sums |= sums << d
    full = (1 << (n + 1)) - 1
    return sums & full == full


_cache = {}


def memo(key, fn):
    if key not in _cache:
        _cache[key] = fn()
    return _cache[key]


def integers(n=2600):
    return memo("int", lambda: [(i, factor(i)) for i in range(1, n)])


def number_list(kind):
    """The beginning of an endless sequence, by definition."""
    ints = integers()
    return memo(kind, lambda: {
        "primes": lambda: [n for n in range(2, 16000) if all(
            [n % d for d in range(2, int(n ** 0.5) + 1)])],
        "factored": lambda: ints,
        "moebius": lambda: [moebius(n) for n, F in ints],
        "practical": lambda: [n for n, F in ints if practical(n)],
    }[kind]())


def lyndon_words(s, n):
    """Lyndon words of length exactly n > 0, by definition."""
    def go():
        return [list(w) for w in product(range(s), repeat=n)
                if all([w < w[i:] + w[:i] for i in range(1, n)])]
    return memo(("lyn", s, n), go)


def partitions_of(n):
    def go():
        def gen(n, top):
            if n == 0:
                yield []
            for k in range(min(n, top), 0, -1):
                for p in gen(n - k, k):
                    yield [k] + p
        return list(gen(n, n))
    return memo(("part", n), go)


def descending(n, top, parts):
    """Partitions of n into some of the given parts, greatest first."""
    if n == 0:
        yield []
        return
    for k in parts:
        if k <= n and k <= top:
            for p in descending(n - k, k, parts):
                yield [k] + p


def ascending(n, top):
    if n == 0:
        yield []
        return
    for k in range(1, min(n, top) + 1):
        for p in ascending(n - k, k):
            yield [k] + p


def fixed(n, k, low=1):
    """Partitions of n into k parts >= low, least last part first."""
    if k == 0:
        if n == 0:
            yield []
        return
    for a in range(low, n // k + 1):
        for p in fixed(n - a, k - 1, a):
            yield p + [a]


def nearer(d, r=40):
    """Number of lattice points at squared distance less than d."""
    if d > r * r:
        raise HarnessError("too many points")
    return bisect_left(memo("pts", lambda: sorted(
        [x * x + y * y for x in range(-r, r + 1)
         for y in range(-r, r + 1)])), d)


# -- judges --------------------------------------------------------------------------------

class Exact:
    """The stream is known item by item."""

    def __init__(self, want, endless, what):
        self.want = want
        self.endless = endless
        self.what = what
        self.pos = 0

    def item(self, x):
        if self.pos >= len(self.want):
            check(self.endless, "%s has an extra item %r" % (self.what, x))
            return
        check(x == self.want[self.pos], "%s item %d is %r, not %r"
              % (self.what, self.pos, x, self.want[self.pos]))
        self.pos += 1

    def end(self):
        check(not self.endless and self.pos == len(self.want),
              "%s ends after %d items" % (self.what, self.pos))


class Lazy(Exact):
    """As Exact, but too long to be written down."""

    def __init__(self, want, endless, what):
        Exact.__init__(self, (), endless, what)
        self.it = iter(want)

    def item(self, x):
        for y in self.it:
            check(x == y, "%s item %d is %r, not %r"
                  % (self.what, self.pos, x, y))
            self.pos += 1
            return
        check(False, "%s has an extra item %r" % (self.what, x))

    def end(self):
        check(next(self.it, None) is None, "%s ends after %d items"
              % (self.what, self.pos))


class Unordered:
    """All of a known collection, each once, with a rule for neighbours."""

    def __init__(self, legal, count, near, first, what, endless=False):
        self.endless = endless
        self.legal = legal
        self.count = count
        self.near = near
        self.first = first
        self.what = what
        self.seen = set()
        self.last = None

    def item(self, x):
        x = tuple(x)
        if self.last is None:
            check(self.first is None or x == self.first,
                  "%s starts with %r" % (self.what, x))
        else:
            check(self.near(self.last, x), "%s goes from %r to %r"
                  % (self.what, self.last, x))
        check(self.legal(x), "%s contains %r" % (self.what, x))
        check(x not in self.seen, "%s repeats %r" % (self.what, x))
        self.seen.add(x)
        self.last = x

    def end(self):
        check(len(self.seen) == self.count, "%s has %d items, not %d"
              % (self.what, len(self.seen), self.count))


class ByDistance:
    """Every lattice point once, nearest first."""

    what = "points by distance"

    def __init__(self):
        self.seen = set()
        self.last = 0

    def item(self, p):
        check(isinstance(p, tuple) and len(p) == 2, "item %r" % (p,))
        d = p[0] ** 2 + p[1] ** 2
        check(d >= self.last, "%r follows distance^2 %d" % (p, self.last))
        check(p not in self.seen, "%r is repeated" % (p,))
        if d > self.last:
            # everything nearer has been listed
            n = nearer(d)
            check(len(self.seen) == n,
                  "%d points nearer than %r were listed, not %d"
                  % (len(self.seen), p, n))
        self.last = d
        self.seen.add(p)

    def end(self):
        check(False, "points by distance ends")


def diff(a, b):
    return [i for i in range(len(a)) if a[i] != b[i]]


def adjacent(a, b):
    d = diff(a, b)
    return len(d) == 2 and d[1] == d[0] + 1 and a[d[0]] == b[d[1]] \
        and a[d[1]] == b[d[0]]


def two_apart(a, b):
    d = diff(a, b)
    return len(d) == 2 and d[1] <= d[0] + 2 and a[d[0]] == b[d[1]] \
        and a[d[1]] == b[d[0]]


def stirling(p):
    for v in set(p):
        i, j = [k for k, x in enumerate(p) if x == v]
        if any([x < v for x in p[i:j]]):
            return False
    return True


def involution_near(a, b):
    """Documented: adds/removes an adjacent pair, moves a target by one,
    or swaps two adjacent targets."""
    pa = {frozenset((i, x)) for i, x in enumerate(a) if i < x}
    pb = {frozenset((i, x)) for i, x in enumerate(b) if i < x}
    gone, new = sorted(map(sorted, pa - pb)), sorted(map(sorted, pb - pa))
    if len(gone) + len(new) == 1:
        (x, y), = gone + new
        return y == x + 1
    if len(gone) == 1 and len(new) == 1:
        s, t = set(gone[0]), set(new[0])
        if len(s & t) != 1:
            return False
        (x,), (y,) = s - t, t - s
        return abs(x - y) == 1
    if len(gone) == 2 and len(new) == 2:
        d = diff(a, b)
        flat = sorted(gone[0] + gone[1])
        return flat == sorted(new[0] + new[1]) and any(
            [flat[k + 1] == flat[k] + 1 for k in range(3)]) and len(d) == 4
    return False


def odd_factorial(n):
    count = 1
    for i in range(1, 2 * n, 2):
        count *= i
    return count


def involutions(n):
    a, b = 1, 1
    for i in range(1, n):
        a, b = b, b + i * a
    return b


# -- what can be streamed ---------------------------------------------------------------------

def spec_numbers(sim):
    kind = sim.pick(("primes", "factored", "moebius", "practical"))
    name, what = {"primes": ("primes", "primes"),
                  "factored": ("factored_integers", "factored integers"),
                  "moebius": ("moebius_sequence", "Moebius values"),
                  "practical": ("practical_numbers", "practical numbers")
                  }[kind]
    return (name, lambda L: getattr(L.eratosthenes, name)(),
            lambda: Exact(number_list(kind), True, what))


def swapped(gap):
    def apply(p, x):
        q = list(p)
        check(isinstance(x, int) and 0 <= x and x + gap < len(p),
              "position %r of %d items" % (x, len(p)))
        q[x], q[x + gap] = q[x + gap], q[x]
        return q
    return apply


def partners(p, c):
    """Swap the partners of c and c+1, as for a stream of involutions."""
    check(isinstance(c, int) and 0 <= c < len(p) - 1, "position %r" % (c,))
    q = list(p)
    x, y = p[c], p[c + 1]
    if (x, y) == (c, c + 1):
        new = {c: c + 1, c + 1: c}
    elif (x, y) == (c + 1, c):
        new = {c: c, c + 1: c + 1}
    elif x == c:
        new = {c: y, y: c, c + 1: c + 1}
    elif y == c + 1:
        new = {c + 1: x, x: c + 1, c: c}
    else:
        new = {c: y, y: c, c + 1: x, x: c + 1}
    for k, v in new.items():
        q[k] = v
    return q


class Positions:
    """Positions that drive a listing: applying them gives the listing."""

    def __init__(self, judge, first, apply):
        self.judge = judge
        self.endless = judge.endless
        self.now = list(first)
        self.apply = apply
        judge.item(self.now)

    def item(self, x):
        self.now = self.apply(self.now, x)
        self.judge.item(self.now)

    def end(self):
        self.judge.end()


CHANGES = {"SteinhausJohnsonTrotter": ("PlainChanges", swapped(1)),
           "DoubleSteinhausJohnsonTrotter": ("DoublePlainChanges",
                                             swapped(1)),
           "StirlingPermutations": ("StirlingChanges", swapped(2)),
           "Involutions": ("InvolutionChanges", partners)}


def spec_changes(sim):
    """The stream of swap positions behind a listing."""
    name, _, judge = spec_permutations(sim, plain=True)
    base, n = name[:-1].split("(")
    n = int(n.split(",")[0])
    stream, apply = CHANGES[base]
    first = list(range(n)) if base[0] in "I" or base == \
        "SteinhausJohnsonTrotter" else [i // 2 for i in range(2 * n)]
    return ("%s(%d)" % (stream, n),
            lambda L: getattr(L.permutations, stream)(n),
            lambda: Positions(judge(), first, apply))


class Untouched(list):
    """A caller's list, which is not to be changed."""

    def __setitem__(self, i, x):
        wrong("the caller's list is changed")

    __delitem__ = insert = __setitem__


def spec_permutations(sim, plain=False):
    kind = sim.choose(4)
    big = sim.flag(1, 8)        # too many to be listed to the end
    if kind == 0:
        n = sim.choose(7) if sim.flag(1, 3) else sim.choose(6)
        if big:
            n = sim.between(7, 12)
        style = 0 if plain else sim.choose(3)
        if style == 0:
            first, make = tuple(range(n)), (lambda P: n)
        elif style == 1:
            first = tuple(namer(sim, n))
            make = lambda P: Untouched(first)
        else:
            first = tuple("abcdefghijkl"[:n])

            def make(P):
                def gen():
                    for x in first:
                        touch("items")
                        yield x
                return gen()
        return ("SteinhausJohnsonTrotter(%d,%d)" % (n, style),
                lambda L: L.permutations.SteinhausJohnsonTrotter(make(L)),
                lambda: Unordered(
                    lambda p: len(p) == n and set(p) == set(first),
                    factorial(n), adjacent, first, "permutations", big))
    if kind == 1:
        n = sim.between(5, 9) if big else sim.choose(5)
        first = tuple([i // 2 for i in range(2 * n)])
        return ("DoubleSteinhausJohnsonTrotter(%d)" % n,
                lambda L: L.permutations.DoubleSteinhausJohnsonTrotter(n),
                lambda: Unordered(
                    lambda p: sorted(p) == list(first) and
                    sorted(set(p), key=p.index) == list(range(n)),
                    odd_factorial(n), adjacent, first,
                    "double permutations", big))
    if kind == 2:
        n = sim.between(5, 9) if big else sim.choose(5)
        first = tuple([i // 2 for i in range(2 * n)])
        return ("StirlingPermutations(%d)" % n,
                lambda L: L.permutations.StirlingPermutations(n),
                lambda: Unordered(
                    lambda p: sorted(p) == list(first) and stirling(p),
                    odd_factorial(n), two_apart, first,
                    "Stirling permutations", big))
    n = sim.between(8, 14) if big else sim.choose(8)
    return ("Involutions(%d)" % n,
            lambda L: L.permutations.Involutions(n),
            lambda: Unordered(
                lambda p: len(p) == n and all([p[p[i]] == i
                                               for i in range(n)]),
                involutions(n), involution_near, tuple(range(n)),
                "involutions", big))


def spec_partitions(sim):
    kind = sim.pick(("mckay", "revlex_partitions", "lex_partitions",
                     "partitions", "binary_partitions",
                     "fixed_length_partitions"))
    n = (sim.choose(12) if sim.flag(3, 4) else sim.choose(20)) - 1
    if kind == "fixed_length_partitions":
        k = sim.choose(6) if sim.flag(3, 4) else sim.choose(12)
        if sim.flag(1, 12):
            k = -1 - sim.choose(3)
        elif sim.flag(1, 12):
            n += sim.choose(60)
            return ("fixed_length_partitions(%d,%d)" % (n, k),
                    lambda L: L.integer_partitions
                    .fixed_length_partitions(n, k),
                    lambda: Lazy(fixed(n, k), False,
                                 "partitions of %d into %d parts" % (n, k)))

        def colex():
            ps = [p for p in partitions_of(n) if len(p) == k] \
                if n >= 0 else []
            return sorted(ps, key=lambda p: p[::-1])
        return ("fixed_length_partitions(%d,%d)" % (n, k),
                lambda L: L.integer_partitions.fixed_length_partitions(n, k),
                lambda: Exact(colex(), False,
                              "partitions of %d into %d parts" % (n, k)))
    if sim.flag(1, 12):
        n += 1 + sim.choose(60)
        parts = [1 << i for i in range(7, -1, -1)] \
            if kind == "binary_partitions" else range(n, 0, -1)
        return ("%s(%d)" % (kind, n),
                lambda L: getattr(L.integer_partitions, kind)(n),
                lambda: Lazy(ascending(n, n) if kind == "lex_partitions"
                             else descending(n, n, parts), False,
                             "%s(%d)" % (kind, n)))
    if kind == "binary_partitions":
        n += sim.choose(6)
        want = lambda: [p for p in partitions_of(n)
                        if all([x & (x - 1) == 0 for x in p])]
    elif kind == "lex_partitions":
        want = lambda: partitions_of(n)[::-1]
    else:
        want = lambda: partitions_of(n)
    return ("%s(%d)" % (kind, n),
            lambda L: getattr(L.integer_partitions, kind)(n),
            lambda: Exact(want() if n >= 0 else [], False,
                          "%s(%d)" % (kind, n)))


def spec_lyndon(sim):
    kind = sim.choose(3)
    s = sim.choose(5)
    if kind == 0:
        n = sim.choose(6 if s > 3 else 8 if s > 2 else 13)
        return ("LengthLimitedLyndonWords(%d,%d)" % (s, n),
                lambda L: L.lyndon.LengthLimitedLyndonWords(s, n),
                lambda: Exact(sorted([w for k in range(1, n + 1)
                                      for w in lyndon_words(s, k)]),
                              False, "Lyndon words up to %d" % n))
    if kind == 1:
        n = sim.choose(6 if s > 3 else 9 if s > 2 else 13)
        return ("LyndonWordsWithLength(%d,%d)" % (s, n),
                lambda L: L.lyndon.LyndonWordsWithLength(s, n),
                lambda: Exact(lyndon_words(s, n) if n else [[]], False,
                              "Lyndon words of length %d" % n))
    s = 2 + sim.choose(3)
    return ("LyndonWords(%d)" % s,
            lambda L: L.lyndon.LyndonWords(s),
            lambda: Exact([[]] + [w for k in range(1, 6)
                                  for w in lyndon_words(s, k)], True,
                          "Lyndon words"))


def spec_points(sim):
    return ("IntegerPointsByDistance",
            lambda L: L.integerpoints.IntegerPointsByDistance(),
            lambda: ByDistance())


class Streams(Case):
    """Several streams, pulled in turns; some abandoned and restarted."""

    specs = ()
    budget = 3000000
    length = 60
    long = 6
    far = 0

    def __init__(self, sim):
        self.kinds = [sim.pick(self.specs)(sim)
                      for _ in range(1 + sim.choose(3))]
        self.script = []
        for _ in range(1 + sim.choose(12)):
            op = sim.pick(("pull", "pull", "pull", "pull", "close", "drop",
                           "again"))
            self.script.append((op, sim.choose(len(self.kinds)),
                                1 + sim.small(0, self.length * (
                                    1 if sim.flag(7, 8) else self.long))))
        if self.far and sim.flag(1, 100):
            self.script.append(("pull", 0, self.far))
        self.finish = sim.flag(1, 2)
        self.keep = sim.flag(1, 2)

    def describe(self):
        return "%r %r" % ([k[0] for k in self.kinds], self.script)

    def body(self, cx):
        L = cx.L
        live = [[make(L), judge()] for _, make, judge in self.kinds]
        kept = []

        def pull(i, k):
            g, j = live[i]
            for _ in range(k):
                try:
                    x = next(g)
                except StopIteration:
                    j.end()
                    expect(StopIteration, lambda: next(g), "ended stream")
                    return False
                j.item(x)
                if self.keep and self.keeps(x) and len(kept) < 400:
                    kept.append((x, freeze(x)))
                elif not self.keep and self.keeps(x):
                    scribble(x)
            return True
        for op, i, k in self.script:
            if op == "pull":
                pull(i, k)
            else:
                if op == "close":
                    live[i][0].close()
                    expect(StopIteration, lambda: next(live[i][0]),
                           "closed stream")
                _, make, judge = self.kinds[i]
                live[i] = [make(L), judge()]
            yield
        if self.finish:
            for i in range(len(live)):
                for _ in range(80):
                    if isinstance(live[i][1], ByDistance) or \
                            getattr(live[i][1], "endless", False):
                        break
                    if not pull(i, 10):
                        break
                    yield
        for x, was in kept:
            check(freeze(x) == was, "item %r was changed after delivery"
                  % (x,))

    def keeps(self, x):
        """Is the item promised to last?"""
        return False


class NumberStreams(Streams):
    specs = (spec_numbers,)
    far = 1500

    def keeps(self, x):
        return True


class PermutationStreams(Streams):
    specs = (spec_permutations, spec_permutations, spec_changes)
    far = 3000


class PartitionStreams(Streams):
    specs = (spec_partitions,)


class LyndonStreams(Streams):
    specs = (spec_lyndon,)


class PointStreams(Streams):
    specs = (spec_points,)
    length = 40
    long = 4
    far = 1500
    budget = 6000000

    def keeps(self, x):
        return True


class Conjugates(Case):
    """Transposed partitions."""

    def __init__(self, sim):
        big = 5 if sim.flag(1, 8) else 1
        self.p = sorted([1 + sim.small(0, 11 * big) for _ in
                         range(sim.choose(12 * big + 1))], reverse=True)
        self.tuple = sim.flag()

    def describe(self):
        return repr(self.p)

    def fingerprint(self):
        return freeze(self.p)

    def body(self, cx):
        f = cx.L.integer_partitions.conjugate
        q = f(tuple(self.p) if self.tuple else self.p)
        want = [len([x for x in self.p if x > i])
                for i in range(max(self.p + [0]))]
        check(q == want, "conjugate of %r is %r" % (self.p, q))
        yield
        check(f(q) == self.p, "conjugating twice")


class Moebius(Case):
    """Single values, asked in any order by any number of callers."""

    def __init__(self, sim):
        self.asked = [1 + sim.small(0, 120 if sim.flag(3, 4) else 700)
                      for _ in range(1 + sim.choose(8))]
        # great numbers, by their factorisations
        self.F = {}
        for p in (2, 3, 5, 7, 11, 13, 31, 127, 257, 8191, 131071):
            if sim.flag(1, 3):
                self.F[p] = 1 + sim.small(0, 6 if sim.choose(4) else 60)
        self.great = sim.flag(1, 4)

    def describe(self):
        return repr((self.asked, self.F))

    def body(self, cx):
        for n in self.asked:
            got = cx.L.eratosthenes.moebius_function(n)
            check(got == moebius(n), "moebius(%d) is %r" % (n, got))
            F = factor(n)
            got = cx.L.eratosthenes.is_practical_factorization(F)
            check(got == practical(n), "practicality of %d" % n)
            check(F == factor(n), "factorisation was changed")
            yield
        if self.great:
            total, want = 1, True
            for p in sorted(self.F):
                want = want and p <= total + 1
                total *= sum([p ** i for i in range(self.F[p] + 1)])
            F = dict(self.F)
            got = cx.L.eratosthenes.is_practical_factorization(F)
            check(got == want and F == self.F,
                  "practicality of %r is %r" % (self.F, got))


class CountLyndon(Case):
    def __init__(self, sim):
        self.asked = [(sim.choose(5), sim.choose(13)) if sim.choose(4)
                      else (sim.choose(60), sim.choose(61))
                      for _ in range(1 + sim.choose(5))]

    def describe(self):
        return repr(self.asked)

    def body(self, cx):
        for s, n in self.asked:
            got = cx.L.lyndon.CountLyndonWords(s, n)
            want = 1
            if n:
                # aperiodic words / n
                def prim(n):
                    return s ** n - sum([prim(d) for d in range(1, n)
                                         if n % d == 0])
                want = prim(n) // n
            check(got == want, "%d Lyndon words of length %d over %d, not %d"
                  % (got, n, s, want))
            yield


class Letter:
    """Symbol whose comparison can fail."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "L%d" % self.v

    def __eq__(self, other):
        touch("symbol comparison")
        return self.v == other.v

    def __lt__(self, other):
        touch("symbol comparison")
        return self.v < other.v

    def __le__(self, other):
        touch("symbol comparison")
        return self.v <= other.v

    __hash__ = None


class LyndonStrings(Case):
    def __init__(self, sim):
        n = sim.choose(14)
        s = 1 + sim.choose(3)
        w = [sim.choose(s) for _ in range(n)]
        if sim.flag(1, 4):
            w = w * 2
        self.style = sim.choose(4)
        self.w = w
        self.k = 1 + sim.choose(4)
        self.n = 1 + sim.choose((5, 6, 4, 3)[self.k - 1])
        if self.k == 2 and sim.flag(1, 12):
            self.n += 5

    def describe(self):
        return "%d %r" % (self.style, self.w)

    def body(self, cx):
        w = self.w
        conv = (list, tuple, lambda w: "".join(["abc"[i] for i in w]),
                lambda w: [Letter(i) for i in w])[self.style]
        s = conv(w)

        def plain(x):
            return [a.v if isinstance(a, Letter) else
                    "abc".index(a) if isinstance(a, str) else a for a in x]
        Y = cx.L.lyndon
        k, n = self.k, self.n
        D = Y.DeBruijnSequence(k, n)
        check(len(D) == k ** n and set(D) <= set(range(k)) and
              len(set([tuple((D * n)[i:i + n]) for i in
                       range(len(D))])) == k ** n,
              "De Bruijn sequence %r of order %d" % (D, n))
        parts = []
        for p in Y.ChenFoxLyndon(s):
            parts.append(plain(p))
            yield
        flat = [x for p in parts for x in p]
        check(flat == w, "decomposition %r of %r" % (parts, w))
        for p in parts:
            check(all([p < p[i:] + p[:i] for i in range(1, len(p))]),
                  "%r is not a Lyndon word" % (p,))
        for p, q in zip(parts, parts[1:]):
            check(p >= q, "decomposition %r is not nonincreasing" % (parts,))
        is_l = all([w < w[i:] + w[:i] for i in range(1, len(w))])
        check(Y.isLyndonWord(s) == is_l, "isLyndonWord(%r)" % (w,))
        got = plain(Y.SmallestSuffix(s))
        check(got == (min([w[i:] for i in range(len(w))]) if w else []),
              "smallest suffix %r of %r" % (got, w))
        yield
        got = plain(Y.SmallestRotation(s))
        check(got == (min([w[i:] + w[:i] for i in range(len(w))])
                      if w else []), "smallest rotation %r of %r" % (got, w))


class PermutationFailure(Case):
    """An item source that fails is the caller's failure."""

    def __init__(self, sim):
        self.k = sim.choose(4)
        self.kind = sim.choose(3)

    def describe(self):
        return "%d %d" % (self.k, self.kind)

    def body(self, cx):
        def gen():
            for i in range(self.k):
                yield i
            if self.kind == 0:
                raise CallerError()
            raise (TypeError, KeyError)[self.kind - 1]("mine")
        try:
            next(cx.L.permutations.SteinhausJohnsonTrotter(gen()))
        except CallerError:
            E.recovered("caller-error")
        except (TypeError, KeyError) as e:
            check(e.args == ("mine",), "caller's error became %r" % (e,))
            E.recovered("caller-error")
        else:
            raise Violation("swallowed-failure", "caller's error was lost")
        yield
