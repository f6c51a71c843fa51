"""Range minima, least common ancestors, online concave minima, wrapping."""

from ..engine import E, touch
from ..env import freeze, fresh, how_many, namer
from ..kernel import Violation
from ..scenario import Case, check, expect
from .structures import CallerError


def values(sim, n):
    """n comparable values with ties."""
    style = sim.choose(5)
    if style == 0:
        return [sim.choose(4) for _ in range(n)]
    if style == 1:
        return [sim.choose(1000) - 500 for _ in range(n)]
    if style == 2:
        return ["s%d" % sim.choose(9) for _ in range(n)]
    if style == 3:
        return [(sim.choose(3), sim.choose(3)) for _ in range(n)]
    up = sim.flag()
    return [i if up else -i for i in range(n)]


class RangeMinima(Case):
    """Minima of slices of a sequence, queried by several callers."""

    shared_survives = True

    def __init__(self, sim):
        n = how_many(sim, 1, 70, 300)
        self.cls = sim.pick(("RangeMin", "LogarithmicRangeMin",
                             "RestrictedRangeMin", "PrecomputedRangeMin"))
        if self.cls == "RestrictedRangeMin":
            x = sim.choose(9)
            self.X = [x]
            for _ in range(n - 1):
                x += 1 if sim.flag() else -1
                self.X.append(x)
        else:
            self.X = values(sim, n)
        self.queries = []
        for _ in range(1 + sim.choose(12)):
            i = sim.choose(n)
            j = i + 1 + sim.choose(n - i)
            k = sim.choose(6)
            if k == 1:
                q = slice(i, None)
                j = n
            elif k == 2:
                q = slice(None, j)
                i = 0
            elif k == 3:
                q = slice(i - n, j)
            elif k == 4 and j < n:
                q = slice(i, j - n)
            else:
                q = slice(i, j)
            self.queries.append((q, i, j))
        self.edge = sim.flag(1, 3)
        self.reused = sim.flag(1, 3)

    def describe(self):
        return "%s(%r)%r" % (self.cls, self.X, [q[0] for q in self.queries])

    def fingerprint(self):
        return freeze(self.X)

    def prepare(self, cx):
        X = list(self.X)
        R = getattr(cx.L.lca, self.cls)(X)
        if self.reused:
            # the caller puts the list to another use
            X[:] = [X[0]] * len(X)
        return R

    def body(self, cx):
        R = cx.shared
        check(len(R) == len(self.X), "length %d" % len(R))
        for q, i, j in self.queries:
            got = R[q]
            check(got == min(self.X[i:j]), "%s[%d:%d] is %r, not %r"
                  % (self.cls, i, j, got, min(self.X[i:j])))
            yield
        if self.edge:
            expect(ValueError, lambda: R[0], "integer index")
            expect(ValueError, lambda: R[0:len(self.X):2], "stride")
            if self.cls == "RangeMin":
                n = len(self.X)
                for q in (slice(1, 1), slice(n, 0), slice(n, None),
                          slice(n - 1, n // 2), slice(-1, -n)):
                    check((R[q] is None) == (not self.X[q]),
                          "minimum of the range %r" % (q,))
                yield


class RangeBuild(RangeMinima):
    """Every caller builds a structure of its own."""

    def prepare(self, cx):
        pass

    def body(self, cx):
        mine = type(cx)(cx.L, cx.idx, RangeMinima.prepare(self, cx))
        yield
        yield from RangeMinima.body(self, mine)


def tree(sim, lo, hi):
    """Random tree as {child: parent}, with its nodes."""
    n = how_many(sim, lo, hi, 3 * hi)
    names = namer(sim, n)
    style = sim.choose(4)
    P = {}
    for i in range(1, n):
        j = {0: sim.choose(i), 1: i - 1, 2: 0,
             3: max(0, i - 1 - sim.choose(3))}[style] \
            if style else sim.choose(i)
        P[names[i]] = fresh(names[j])
    keys = sim.shuffled(list(P))
    return names, {x: P[x] for x in keys}


def path(P, x):
    out = [x]
    while x in P:
        x = P[x]
        out.append(x)
    return out


def lca(P, xs):
    common = None
    for x in xs:
        up = path(P, x)
        common = up if common is None else [y for y in common if y in up]
    return common[0]


class TreeLca(Case):
    shared_survives = True

    def __init__(self, sim):
        self.names, self.P = tree(sim, 2, 40)
        self.factory = sim.choose(3)
        self.queries = [[fresh(sim.pick(self.names)) for _ in
                         range(1 + sim.choose(3))]
                        for _ in range(1 + sim.choose(8))]
        self.want = [lca(self.P, q) for q in self.queries]

    def describe(self):
        return "%r %r" % (self.P, self.queries)

    def fingerprint(self):
        return freeze(self.P)

    def prepare(self, cx):
        M = cx.L.lca
        P = dict(self.P)
        T = M.LCA(P, M.LogarithmicRangeMin) if self.factory == 1 else \
            M.LCA(P, M.RangeMin) if self.factory == 2 else M.LCA(P)
        P.clear()
        return T

    def body(self, cx):
        T = cx.shared
        for q, w in zip(self.queries, self.want):
            got = T(*q)
            check(got == w, "common ancestor of %r is %r, not %r"
                  % (q, got, w))
            yield


class TreeLcaBuild(TreeLca):
    def prepare(self, cx):
        pass

    def body(self, cx):
        mine = type(cx)(cx.L, cx.idx, TreeLca.prepare(self, cx))
        yield
        yield from TreeLca.body(self, mine)


class OfflineAncestors(Case):
    def __init__(self, sim):
        self.names, self.P = tree(sim, 2, 30)
        self.pairs = [(sim.pick(self.names), sim.pick(self.names))
                      for _ in range(1 + sim.choose(12))]

    def describe(self):
        return "%r %r" % (self.P, self.pairs)

    def fingerprint(self):
        return freeze((self.P, self.pairs))

    def body(self, cx):
        A = cx.L.lca.OfflineLCA(self.P, iter(self.pairs))
        yield
        for x, y in self.pairs:
            w = lca(self.P, (x, y))
            check(A[x][y] == w and A[y][x] == w,
                  "common ancestor of %r,%r is %r/%r, not %r"
                  % (x, y, A[x][y], A[y][x], w))


class NotATree(Case):
    def __init__(self, sim):
        self.names, P = tree(sim, 3, 14)
        kind = sim.choose(3)
        more = namer(sim, 4)
        more = [("other", i) for i in range(4)]
        if kind == 0:
            P[more[0]] = more[1]                # two roots
        elif kind == 1:
            P[more[0]] = more[1]                # a cycle beside the tree
            P[more[1]] = more[0]
        else:
            root = [x for x in self.names if x not in P][0]
            P[root] = sim.pick(self.names)      # no root
        self.P = P
        self.kind = kind

    def describe(self):
        return repr(self.P)

    def fingerprint(self):
        return freeze(self.P)

    def body(self, cx):
        M = cx.L.lca
        expect(ValueError, lambda: M.LCA(self.P), "not a tree")
        yield
        expect(ValueError, lambda: M.OfflineLCA(self.P, []),
               "not a tree, offline")


# -- online concave minima ----------------------------------------------------------------

class OnlineMinima(Case):
    """A growing table of minima over a cost function that may fail."""

    def __init__(self, sim):
        n = self.n = 2 + sim.choose(22)
        # cost(i,j) = value(i) + w(i,j), with w convex in the distance
        self.pos = [0]
        for _ in range(n):
            self.pos.append(self.pos[-1] + 1 + sim.choose(9))
        self.a = sim.choose(4)
        self.target = 1 + sim.choose(30)
        self.fixed = sim.choose(60)
        self.over = sim.pick((1, 20, 1000))
        self.online = sim.flag(2, 3)
        self.base = [sim.choose(400) for _ in range(n + 1)]
        self.order = [sim.choose(n + 1) for _ in range(1 + sim.choose(6))]
        self.fails = []
        if sim.flag(1, 2):
            self.fails = sorted(set([sim.choose(6 * n) for _ in
                                     range(1 + sim.choose(5))]))

    def describe(self):
        return "pos=%r target=%d fixed=%d over=%d online=%s base=%r " \
            "order=%r fails=%r" % (self.pos, self.target, self.fixed,
                                   self.over, self.online, self.base,
                                   self.order, self.fails)

    def weight(self, i, j):
        d = self.pos[j] - self.pos[i] - self.target
        return self.fixed + (self.over * d if d > 0 else d * d)

    def reference(self):
        V = [self.base[0]]
        for j in range(1, self.n + 1):
            V.append(min([(V[i] if self.online else self.base[i])
                          + self.weight(i, j) for i in range(j)]))
        return V

    def body(self, cx):
        calls = [0]
        known = [0]

        def matrix(i, j):
            touch("matrix")
            if not i < j:
                raise Violation("wrong-answer",
                                "cost function called for %d,%d" % (i, j))
            calls[0] += 1
            if calls[0] - 1 in self.fails:
                raise CallerError()
            if j > self.n:
                return -i
            return (O.value(i) if self.online else self.base[i]) \
                + self.weight(i, j)
        O = cx.L.smawk.OnlineConcaveMinima(matrix, self.base[0])
        V = self.reference()

        def get(fn, j):
            for _ in range(len(self.fails) + 1):
                try:
                    return fn(j)
                except CallerError:
                    E.recovered("caller-error")
            raise Violation("no-termination", "cost function keeps failing")
        for j in self.order:
            v = get(O.value, j)
            k = get(O.index, j)
            self.verify(V, j, v, k)
            yield
        it = iter(O)
        for j in range(self.n + 1):
            try:
                v, k = next(it)
            except CallerError:
                # a generator that failed is over; a new one starts anew
                E.recovered("caller-error")
                v, k = get(O.value, j), get(O.index, j)
                it = iter(O)
                for _ in range(j + 1):
                    get(lambda j: next(it), j)
            self.verify(V, j, v, k)
            if j % 4 == 0:
                yield

    def verify(self, V, j, v, k):
        check(v == V[j], "value(%d) is %r, not %r" % (j, v, V[j]))
        if j == 0:
            check(k is None, "index(0) is %r" % (k,))
        else:
            check(isinstance(k, int) and 0 <= k < j, "index(%d) is %r"
                  % (j, k))
            check((V[k] if self.online else self.base[k])
                  + self.weight(k, j) == v,
                  "index(%d)=%d does not attain %r" % (j, k, v))


class ColumnMinima(Case):
    """Minima of all columns of a totally monotone matrix, ties included."""

    def __init__(self, sim):
        n, m = how_many(sim, 1, 8, 20), how_many(sim, 0, 8, 20)
        top = sim.pick((1, 3, 30))
        a = [sim.choose(top + 1) for _ in range(n)]
        dense = sim.pick((1, 2, 4))
        # subtracting a cumulative sum makes the matrix Monge
        C = [[0] * (m + 1) for _ in range(n + 1)]
        for i in range(n):
            for j in range(m):
                C[i + 1][j + 1] = C[i][j + 1] + C[i + 1][j] - C[i][j] + \
                    (sim.choose(top + 1) if sim.flag(1, dense) else 0)
        # any increasing function of one column keeps it totally monotone
        f = [sim.choose(3) for _ in range(m)]
        b = [sim.choose(20) for _ in range(m)]
        self.M = [[(lambda x: x if f[j] == 0 else x ** 3 if f[j] == 1
                    else x / 2)(a[i] - C[i + 1][j + 1]) + b[j]
                   for j in range(m)] for i in range(n)]
        self.rows, self.cols = namer(sim, n), namer(sim, m)
        self.shape = sim.choose(3)
        self.fail = sim.choose(40) if sim.flag(1, 5) else None

    def describe(self):
        return "%r rows %r cols %r fail=%r" % (self.M, self.rows, self.cols,
                                               self.fail)

    def fingerprint(self):
        return freeze([self.rows, self.cols])

    def body(self, cx):
        r = {x: i for i, x in enumerate(self.rows)}
        c = {x: i for i, x in enumerate(self.cols)}
        calls = [0]

        def matrix(i, j):
            touch("matrix")
            calls[0] += 1
            if calls[0] - 1 == self.fail:
                raise CallerError()
            return self.M[r[i]][c[j]]
        R, K = self.rows, self.cols
        if self.shape == 1:
            R, K = tuple(R), tuple(K)
        elif self.shape == 2:
            R, K = dict.fromkeys(R), list(K)
        try:
            got = cx.L.smawk.ConcaveMinima(R, K, matrix)
        except CallerError:
            E.recovered("caller-error")
            got = cx.L.smawk.ConcaveMinima(R, K, matrix)
        yield
        check(set(got) == set(self.cols), "columns of the result")
        for x, j in c.items():
            best = min([row[j] for row in self.M])
            first = [row[j] for row in self.M].index(best)
            check(got[x][0] == best, "minimum of column %r is %r, not %r"
                  % (x, got[x][0], best))
            check(got[x][1] == self.rows[first],
                  "minimum of column %r is said to be in row %r, not %r"
                  % (x, got[x][1], self.rows[first]))


WORDS = ("a", "to", "the", "well-known", "of.", "J.", "sentence.", "x-y-z",
         "internationalization", "end.", "word", "it", "A", "Dr.", "b.",
         "A-B.", ".", "Q-.", "\u00c9.", "\u00e9.", "7.", "em--dash",
         "-x")


class WrapText(Case):
    def __init__(self, sim):
        n = how_many(sim, 0, 25, 60)
        self.text = sim.pick((" ", "  ", "\n", " \t", "\r\n", "\u2003")).join(
            [sim.pick(WORDS) for _ in range(n)])
        self.target = sim.pick((10, 18, 30, 76))
        self.longlast = sim.pick((False, True, 0, 1))
        self.french = sim.pick((False, True, 0, 1))
        self.wide = sim.pick((0, 0, 0, 1, 1, 2))
        self.pens = [sim.pick(p) for p in ((1000, 50), (1000, 0, 10),
                                           (25, 0), (25, 0))]
        self.plain = sim.flag(1, 4)     # every argument left out
        if self.plain:
            self.target, self.longlast, self.french = 76, False, False
            self.wide, self.pens = 0, [1000, 1000, 25, 25]

    def describe(self):
        return "%r target=%d longlast=%s french=%s wide=%s %r" % (
            self.text, self.target, self.longlast, self.french, self.wide,
            self.pens)

    def body(self, cx):
        def measure(s):
            touch("measure")
            if self.wide == 2:
                # a kerned font: pairs of equal characters move closer
                return 3 * len(s) - sum([a == b for a, b in zip(s, s[1:])])
            return sum([2 if ch in "mwW" else 1 for ch in s]) \
                if self.wide else len(s)
        over, nline, one, hyph = self.pens
        if self.plain:
            lines = cx.L.wrap.wrap(self.text)
        else:
            lines = cx.L.wrap.wrap(self.text, self.target, self.longlast,
                                   self.french, measure, over, nline, one,
                                   hyph)
        yield
        check(all([isinstance(l, str) for l in lines]), "lines are not text")
        # nothing is lost: the pieces between possible breaks are the same
        pieces = []
        for w in self.text.split():
            parts = w.split("-")
            for p in parts[:-1]:
                pieces.append((p + "-", 0))
            sp = 1
            if parts[-1].endswith(".") and (len(w) > 2 or
                                            not w[0].isupper()):
                sp = 2 - self.french
            pieces.append((parts[-1], sp))
        # read the breaks off the lines
        cuts = [0]
        k = 0
        for line in lines:
            text = ""
            start = k
            while k < len(pieces):
                trial = text + pieces[k][0]
                if trial == line:
                    text = trial
                    k += 1
                    break
                text = trial + " " * pieces[k][1]
                k += 1
                if len(text) > len(line) + 2:
                    break
            check(text == line and k > start,
                  "line %r does not continue the text at %r"
                  % (line, pieces[start:start + 3]))
            cuts.append(k)
        check(k == len(pieces), "text after piece %d is lost" % k)
        if not pieces:
            return
        # best possible total penalty
        cum = []
        t = 0
        for i, (p, sp) in enumerate(pieces):
            if i:
                t += measure(" " * pieces[i - 1][1]) \
                    if pieces[i - 1][1] else 0
            t += measure(p)
            cum.append(t)
        sm = [0, measure(" "), measure("  ")]

        def line_cost(i, j):
            m = cum[j - 1] - (cum[i - 1] + sm[pieces[i - 1][1]] if i else 0)
            c = nline
            if m > self.target:
                c += over * (m - self.target)
            elif j < len(pieces) or self.longlast:
                c += (self.target - m) ** 2
            elif i == j - 1:
                c += one
            return c + (0 if pieces[j - 1][1] else hyph)
        best = [0]
        for j in range(1, len(pieces) + 1):
            best.append(min([best[i] + line_cost(i, j) for i in range(j)]))
        cost = sum([line_cost(a, b) for a, b in zip(cuts, cuts[1:])])
        check(cost == best[-1], "total penalty %d, %d is possible"
              % (cost, best[-1]))
