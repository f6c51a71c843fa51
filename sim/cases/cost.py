"""Work done by the library, counted in its own interpreter steps.

Every family runs the same workload at two sizes, the larger one four times
the smaller, and compares the work.  What is linear (or nearly) takes between
four and seven times as long, what is quadratic sixteen times; what is
constant takes as long as before.
"""

import random

from ..engine import E
from ..env import named
from ..scenario import Case, check

LINEAR = 7.0
CONSTANT = 1.7
FACTOR = 4


def sparse(rng, n, kind):
    """Undirected graph with a linear number of edges."""
    adj = {i: [] for i in range(n)}

    def join(a, b):
        if a != b and b not in adj[a]:
            adj[a].append(b)
            adj[b].append(a)
    if kind == "path" or kind == "cycle":
        for i in range(n - 1):
            join(i, i + 1)
        if kind == "cycle":
            join(0, n - 1)
    elif kind == "star":
        for i in range(1, n):
            join(0, i)
    elif kind == "tree":
        for i in range(1, n):
            join(i, rng.randrange(i))
    elif kind == "ladder":
        for i in range(n - 2):
            join(i, i + 2)
            join(i, i + 1)
        join(n - 2, n - 1)
    elif kind == "fan":
        for i in range(1, n):
            join(0, i)
            if i > 1:
                join(i - 1, i)
    else:
        for i in range(n):
            for _ in range(2):
                join(i, rng.randrange(n))
        for i in range(n - 1):
            if rng.random() < 0.5:
                join(i, i + 1)
    return adj


GRAPHS = ("path", "cycle", "star", "tree", "ladder", "fan", "random")


class Growth(Case):
    modes = ("solo",)
    budget = 8000000
    bound = LINEAR
    sizes = (60, 100)

    def __init__(self, sim):
        lo, hi = self.sizes
        self.n = lo + sim.choose(hi - lo + 1)
        self.seed = sim.choose(1 << 20)
        self.names = named(sim, FACTOR * self.n,
                           sim.pick(("int", "str", "opaque", "ordered")))
        self.draw(sim)

    def draw(self, sim):
        pass

    def describe(self):
        return "n=%d %r" % (self.n, {k: v for k, v in vars(self).items()
                                     if k not in ("names", "n")})

    def body(self, cx):
        work = []
        for n in (self.n, FACTOR * self.n):
            rng = random.Random(self.seed)
            self.cost = None
            before = E.spent()
            for _ in self.work(cx.L, n, rng):
                yield
            w = E.spent() - before if self.cost is None else self.cost
            work.append(max(1, w))
            yield
        ratio = work[1] / work[0]
        check(ratio <= self.bound, "%d steps for size %d, %d steps for size "
              "%d: more than %.1f times as many"
              % (work[0], self.n, work[1], FACTOR * self.n, self.bound))


class GraphGrowth(Growth):
    """Linear-time graph algorithms."""

    def draw(self, sim):
        self.kind = sim.pick(GRAPHS)
        self.algo = sim.pick(("dfs", "bfs", "strong", "biconnected",
                              "orient", "bipartite", "lexbfs", "chordal",
                              "degeneracy", "greedy", "forest", "logic",
                              "closure"))
        self.mix = sim.flag()
        self.sets = sim.flag()

    def work(self, L, n, rng):
        adj = sparse(rng, n, self.kind)
        N = self.names
        vs = list(adj)
        if self.mix:
            rng.shuffle(vs)
        G = {N[v]: [N[w] for w in adj[v]] for v in vs}
        a = self.algo
        if a == "dfs":
            check(len(list(L.dfs.preorder(G))) == n, "preorder")
        elif a == "bfs":
            check(sum([len(v) for v in L.bfs.breadth_first_levels(
                G, N[0])]) <= n, "levels")
        elif a == "strong":
            D = {N[v]: [N[w] for w in adj[v] if v < w or (v + w) % 5 == 0]
                 for v in vs}
            list(L.strong_connectivity.StronglyConnectedComponents(D))
        elif a == "biconnected":
            list(L.biconnectivity.BiconnectedComponents(G))
        elif a == "orient":
            if self.kind in ("cycle", "ladder", "fan"):
                L.biconnectivity.st_orientation(G)
        elif a == "bipartite":
            if self.kind in ("path", "star", "tree"):
                check(L.bipartite.is_bipartite(G), "bipartite")
        elif a == "lexbfs":
            check(len(list(L.lex_bfs.lex_bfs(
                {v: set(w) for v, w in G.items()}))) == n, "order")
        elif a == "chordal":
            if self.kind not in ("cycle", "random"):
                check(L.chordal.is_chordal({v: set(w) for v, w in
                                            G.items()}), "chordal")
        elif a == "degeneracy":
            L.graphdegeneracy.degeneracy(G)
        elif a == "greedy":
            if self.sets:
                G = {v: set(w) for v, w in G.items()}
            L.cardinality_matching.greedy_matching(G)
        elif a == "forest":
            W = {N[v]: {N[w]: (v * w) % 17 for w in adj[v]} for v in vs}
            L.minimum_spanning_tree.MinimumSpanningTree(W)
        elif a == "logic":
            Not = L._not.Not
            I = {N[v]: [Not(N[w]) if (v + w) % 3 else N[w]
                        for w in adj[v]] for v in vs}
            L.two_satisfiability.Satisfiable(I)
        else:
            D = {N[v]: [N[w] for w in adj[v] if v < w] for v in vs}
            L.partial_order.TopologicalOrder(D)
            L.acyclic_reachability.Reachability(D)
        yield


class UnionGrowth(Growth):
    """Unions and look-ups take nearly constant time each."""

    def draw(self, sim):
        self.kind = sim.choose(6)

    def work(self, L, n, rng):
        U = L.union_find.UnionFind()
        N = self.names[:n]
        k = self.kind
        if k == 0:
            for a, b in zip(N, N[1:]):
                U.union(a, b)
        elif k == 1:
            for a, b in zip(N, N[1:]):
                U.union(b, a)
        elif k == 2:
            for a, b in zip(N[::-1], N[-2::-1]):
                U.union(a, b)
        elif k == 3:
            for a in N[1:]:
                U.union(a, N[0])
        elif k == 4:
            d = 1
            while d < n:
                for i in range(0, n - d, 2 * d):
                    U.union(N[i + d], N[i])
                d *= 2
        else:
            for _ in range(n):
                U.union(rng.choice(N), rng.choice(N))
        yield
        for _ in range(2):
            for a in N:
                U[a]


class QueryGrowth(Growth):
    """Queries whose cost must not depend on the size of the structure."""

    bound = CONSTANT

    def draw(self, sim):
        self.kind = sim.choose(7)
        self.count = 20

    def work(self, L, n, rng):
        k = self.kind
        N = self.names[:n]
        if k <= 2:
            X = [rng.randrange(1000) for _ in range(n)]
            if k == 0:
                T = L.lca.RangeMin(X)
            elif k == 1:
                T = L.lca.LogarithmicRangeMin(X)
            else:
                x, X = 0, []
                for _ in range(n):
                    x += rng.choice((1, -1))
                    X.append(x)
                T = L.lca.RestrictedRangeMin(X)
            yield
            before = E.spent()
            for i in range(self.count):
                # short and long slices alike, so that sizes compare
                a = n * i // (self.count + 9)
                b = n - n * (i % 5) // 9
                T[a:b]
            self.cost = E.spent() - before
        elif k == 3:
            parent = {i: rng.randrange(i) for i in range(1, n)}
            parent = {N[a]: N[b] for a, b in parent.items()}
            T = L.lca.LCA(parent)
            yield
            before = E.spent()
            for i in range(self.count):
                T(N[n // 2 + i], N[n - 1 - i])
            self.cost = E.spent() - before
        elif k == 4:
            P = L.partition_refinement.PartitionRefinement(N)
            yield
            before = E.spent()
            for i in range(self.count):
                P.refine(N[3 * i % 40:3 * i % 40 + 5])
            self.cost = E.spent() - before
        elif k == 5:
            S = L.sequence.Sequence(N)
            yield
            before = E.spent()
            for i in range(self.count):
                x = N[n // 2 + i]
                S.remove(x)
                S.insertAfter(N[0], x)
                S.successor(N[0])
                S.predecessor(N[-1])
            self.cost = E.spent() - before
        else:
            D = {N[i]: [N[j] for j in range(i + 1, min(n, i + 3))]
                 for i in range(n)}
            R = L.acyclic_reachability.Reachability(D)
            yield
            before = E.spent()
            for i in range(self.count):
                R.reachable(N[i], N[n - 1 - i])
            self.cost = E.spent() - before


class BuildGrowth(Growth):
    """Building query structures, and orders kept through insertions."""

    def draw(self, sim):
        self.kind = sim.choose(9)
        self.steep = sim.choose(3)

    def work(self, L, n, rng):
        k = self.kind
        N = self.names[:n]
        if self.steep == 0:
            X = [rng.randrange(1000) for _ in range(n)]
        else:
            X = [i * (-1) ** self.steep for i in range(n)]
        if k == 0:
            L.lca.RangeMin(X)
        elif k == 1:
            L.lca.LogarithmicRangeMin(X)
        elif k == 2:
            parent = {N[i]: N[i - 1 if self.steep else rng.randrange(i)]
                      for i in range(1, n)}
            T = L.lca.LCA(parent)
            yield
            T(N[1], N[n - 1])
        elif k == 3:
            parent = {N[i]: N[i - 1 if self.steep else rng.randrange(i)]
                      for i in range(1, n)}
            L.lca.OfflineLCA(parent, [(N[rng.randrange(n)],
                                       N[rng.randrange(n)])
                                      for _ in range(n)])
        elif k == 4:
            # the first few dozen insertions never collide
            S = L.ordered_sequence.LogarithmicOrderedSequence([0])
            for x in range(1, 3 * n):
                if self.steep == 0:
                    S.insertAfter(0, x)
                elif self.steep == 1:
                    S.append(x)
                else:
                    S.insertBefore(0, x)
                if x % 64 == 0:
                    yield
        elif k == 5:
            F = L.frequencyestimator.FrequencyEstimator(0.2)
            for i in range(n):
                F += N[rng.randrange(n if self.steep else 3)]
        elif k == 6:
            Q = L.bucketqueue.BucketQueue()
            for i, x in enumerate(N):
                Q[x] = rng.randrange(n)
            for x in N[::3]:
                Q[x] = rng.randrange(n)
            for x in N[::5]:
                del Q[x]
            for x in Q:
                pass
        elif k == 7:
            calls = [0]

            def matrix(i, j):
                calls[0] += 1
                return (i - j * (1 + self.steep) / 3) ** 2
            L.smawk.ConcaveMinima(range(n), range(n), matrix)
            self.cost = calls[0]
        else:
            calls = [0]

            def cost(i, j):
                calls[0] += 1
                if j > n:
                    return -i
                return (O.value(i) + ((j - i) - (3, 9, 40)[self.steep]) ** 2)
            O = L.smawk.OnlineConcaveMinima(cost, 0)
            O.value(n)
            self.cost = calls[0]
        yield


class StreamGrowth(Growth):
    """The average cost of an item does not grow with the stream."""

    bound = LINEAR

    def draw(self, sim):
        self.kind = sim.choose(4)

    def work(self, L, n, rng):
        k = self.kind
        src = (lambda: L.eratosthenes.primes(),
               lambda: L.eratosthenes.factored_integers(),
               lambda: L.integerpoints.IntegerPointsByDistance(),
               lambda: L.eratosthenes.moebius_sequence())[k]()
        for i, _ in zip(range(n), src):
            if i % 64 == 0:
                yield


AVERAGE = (
    ("permutations", "PlainChanges", (5, 7)),
    ("permutations", "DoublePlainChanges", (4, 5)),
    ("permutations", "StirlingChanges", (4, 5)),
    ("permutations", "InvolutionChanges", (6, 9)),
    ("integer_partitions", "mckay", (10, 20)),
    ("integer_partitions", "lex_partitions", (10, 20)),
    ("integer_partitions", "revlex_partitions", (10, 20)),
    ("integer_partitions", "binary_partitions", (15, 50)),
    ("lyndon", "LengthLimitedLyndonWords", (7, 10)),
)


class AverageItem(Case):
    """Constant average time per item of a complete listing."""

    modes = ("solo",)
    budget = 8000000

    def __init__(self, sim):
        self.mod, self.fn, self.sizes = sim.pick(AVERAGE)

    def describe(self):
        return "%s %r" % (self.fn, self.sizes)

    def body(self, cx):
        avg = []
        for n in self.sizes:
            f = getattr(getattr(cx.L, self.mod), self.fn)
            count = 0
            before = E.spent()
            for _ in f(2, n) if self.mod == "lyndon" else f(n):
                count += 1
                if count % 500 == 0:
                    yield
            avg.append((E.spent() - before) / max(1, count))
            yield
        check(avg[1] <= 1.7 * avg[0], "%.1f steps per item for size %d, %.1f "
              "for size %d" % (avg[0], self.sizes[0], avg[1], self.sizes[1]))


class WordGrowth(Case):
    """Heap operations cost in proportion to the logarithm of the word."""

    modes = ("solo",)
    budget = 4000000

    def __init__(self, sim):
        self.i = 6 + sim.choose(2)
        self.seed = sim.choose(1 << 20)

    def describe(self):
        return "i=%d seed=%d" % (self.i, self.seed)

    def body(self, cx):
        work = []
        for i in (self.i, 2 * self.i):
            H = cx.L.integer_heap.IntegerHeap(i)
            rng = random.Random(self.seed)
            xs = [rng.getrandbits(1 << i) for _ in range(30)]
            before = E.spent()
            for x in xs:
                H.add(x)
            for x in sorted(xs):
                check(H.min() == x, "minimum")
                H.remove(x)
            work.append(E.spent() - before)
            yield
        check(work[1] <= 6 * work[0], "%d steps for words of 2^%d bits, %d "
              "for 2^%d" % (work[0], self.i, work[1], 2 * self.i))
