"""Long thin inputs with little stack left: depth must not matter."""

from ..env import freeze, named, represent
from ..scenario import Case, check, wrong

FRAMES = 70


class Deep(Case):
    headroom = FRAMES
    modes = ("solo",)
    faults = frozenset(["interrupt", "memory", "callback", "close"])
    budget = 6000000

    def __init__(self, sim):
        self.n = 2 * FRAMES + sim.choose(120)
        kind = sim.pick(("int", "str", "opaque", "ordered"))
        self.names = named(sim, self.n, kind)
        self.order = sim.choose(3)
        self.sim_draw(sim)

    def sim_draw(self, sim):
        pass

    def arrange(self, sim, adj):
        """Vertex order: forwards, backwards or shuffled."""
        vs = list(adj)
        if self.order == 1:
            vs.reverse()
        elif self.order == 2:
            vs = sim.shuffled(vs)
        return {v: adj[v] for v in vs}

    def describe(self):
        return "n=%d order=%d" % (self.n, self.order)


def path_adj(names, closed=False):
    adj = {v: [] for v in names}
    for a, b in zip(names, names[1:] + (names[:1] if closed else [])):
        adj[a].append(b)
        adj[b].append(a)
    return adj


class DeepDirected(Deep):
    def sim_draw(self, sim):
        self.cyclic = sim.flag(1, 3)
        N = self.names
        adj = {a: [b] for a, b in zip(N, N[1:])}
        adj[N[-1]] = [N[0]] if self.cyclic else []
        self.adj = self.arrange(sim, adj)
        self.G = represent(sim, self.adj)

    def fingerprint(self):
        return freeze(self.G)

    def body(self, cx):
        N = self.names
        got = list(cx.L.dfs.preorder(self.G, N[0]))
        check(got == N, "preorder of a path")
        yield
        check(list(cx.L.dfs.postorder(self.G, N[0])) == N[::-1],
              "postorder of a path")
        check(cx.L.dfs.reachable(self.G, N[0], N[-1]), "reachable")
        yield
        C = [set(c) for c in
             cx.L.strong_connectivity.StronglyConnectedComponents(self.G)]
        check(len(C) == (1 if self.cyclic else self.n), "%d components"
              % len(C))
        yield
        check(len(cx.L.strong_connectivity.Condensation(self.G)) == len(C),
              "condensation")
        yield
        P = cx.L.partial_order
        check(P.isAcyclic(self.G) == (not self.cyclic), "isAcyclic")
        if not self.cyclic:
            check(list(P.TopologicalOrder(self.G)) == N, "topological order")
        yield
        levels = 0
        for lev in cx.L.bfs.breadth_first_levels(self.G, N[0]):
            levels += 1
        check(levels in (self.n, self.n - 1), "%d levels" % levels)


class DeepReach(Deep):
    def sim_draw(self, sim):
        self.n = min(self.n, 2 * FRAMES + sim.choose(20))
        self.names = self.names[:self.n]
        N = self.names
        self.adj = self.arrange(sim, {a: [b] for a, b in
                                      zip(N, N[1:] + [None])})
        self.adj[N[-1]] = []
        self.G = represent(sim, self.adj)

    def fingerprint(self):
        return freeze(self.G)

    def body(self, cx):
        N = self.names
        T = cx.L.partial_order.TransitiveClosure(self.G)
        check(all([len(T[v]) == self.n - 1 - i or len(T[v]) == self.n - i
                   for i, v in enumerate(N)]), "closure of a path")
        yield
        R = cx.L.acyclic_reachability.Reachability(self.G)
        for i in range(0, self.n, 13):
            for j in range(0, self.n, 17):
                check(bool(R.reachable(N[i], N[j])) == (i <= j),
                      "reachable %d %d" % (i, j))
        yield


class DeepUndirected(Deep):
    def sim_draw(self, sim):
        self.closed = sim.flag()
        self.adj = self.arrange(sim, path_adj(self.names, self.closed))
        self.G = represent(sim, self.adj)

    def fingerprint(self):
        return freeze(self.G)

    def body(self, cx):
        L = cx.L
        n = self.n
        B = list(L.biconnectivity.BiconnectedComponents(self.G))
        check(len(B) == (1 if self.closed else n - 1), "%d blocks" % len(B))
        check(bool(L.biconnectivity.is_biconnected(self.G)) == self.closed,
              "is_biconnected")
        yield
        bip = L.bipartite.is_bipartite(self.G)
        check(bip == (not self.closed or n % 2 == 0), "is_bipartite")
        core = L.bipartite.odd_core(self.G)
        check(len(core) == (0 if bip else n), "odd core")
        yield
        if self.closed:
            O = L.biconnectivity.st_orientation(self.G)
            check(sum([len(O[v]) for v in O]) == n, "st orientation")
            yield
        D = L.graphdegeneracy
        check(D.degeneracy(self.G) == (2 if self.closed else 1),
              "degeneracy")
        check(len(D.core(self.G)) == n, "core")
        check(not list(D.triangles(self.G)), "triangles")
        yield
        check(bool(L.chordal.is_chordal(self.G)) == (not self.closed),
              "is_chordal")
        check(len(list(L.lex_bfs.lex_bfs(self.G))) == n, "LexBFS")
        yield


class DeepTree(Deep):
    """Ancestors along a long branch."""

    def sim_draw(self, sim):
        N = self.names
        self.parent = {}
        for i in range(1, self.n):
            p = i - 1 if i < self.n - 10 else sim.choose(self.n - 10)
            self.parent[N[i]] = N[p]
        self.up = {N[i]: i for i in range(self.n)}
        self.parent = self.arrange(sim, self.parent)
        self.pairs = [(sim.pick(N), sim.pick(N)) for _ in range(6)]

    def fingerprint(self):
        return freeze(self.parent)

    def lca(self, a, b):
        seen = []
        while True:
            seen.append(a)
            if a not in self.parent:
                break
            a = self.parent[a]
        while b not in seen:
            b = self.parent[b]
        return b

    def body(self, cx):
        A = cx.L.lca.LCA(self.parent)
        for a, b in self.pairs:
            check(A(a, b) == self.lca(a, b), "common ancestor")
        yield
        O = cx.L.lca.OfflineLCA(self.parent, self.pairs)
        for a, b in self.pairs:
            check(O[a][b] == self.lca(a, b), "offline common ancestor")
        yield


class DeepMatching(Deep):
    """An augmenting path through the whole graph."""

    def sim_draw(self, sim):
        N = self.names
        # U = names, V = numbers; greedy takes the wrong end first
        self.g = {N[i]: [i, i + 1] for i in range(self.n - 1)}
        self.g[N[-1]] = [0]
        self.flip = sim.flag()
        if self.flip:
            self.g = {v: self.g[v][::-1] for v in self.g}
        self.g = self.arrange(sim, self.g)

    def fingerprint(self):
        return freeze(self.g)

    def body(self, cx):
        M, A, B = cx.L.bipartite_matching.matching(self.g)
        check(len(M) == self.n, "matching of size %d, not %d"
              % (len(M), self.n))
        check(all([v in self.g[M[v]] for v in M]) and
              len(set(M.values())) == len(M), "not a matching")
        yield


class DeepGeneral(Deep):
    def sim_draw(self, sim):
        self.closed = sim.flag()
        self.n = min(self.n, FRAMES + 20 + sim.choose(20))
        self.names = self.names[:self.n]
        self.adj = self.arrange(sim, path_adj(self.names, self.closed))
        self.G = represent(sim, self.adj)
        # a maximal matching that is one short
        N = self.names
        self.init = {}
        for i in range(1, self.n - 1, 2):
            self.init[N[i]] = N[i + 1]
            self.init[N[i + 1]] = N[i]
        self.given = sim.flag()

    def fingerprint(self):
        return freeze([self.G, self.init])

    def body(self, cx):
        f = cx.L.cardinality_matching.matching
        M = f(self.G, dict(self.init)) if self.given else f(self.G)
        check(len(M) == self.n // 2 * 2, "matching covers %d of %d vertices"
              % (len(M), self.n))
        check(all([M[M[v]] == v and M[v] in self.adj[v] for v in M]),
              "not a matching")
        yield


class DeepBlossom(Deep):
    """Odd cycles each of which has the previous one on its side."""

    def sim_draw(self, sim):
        k = FRAMES + 5 + sim.choose(25)
        edges, pairs = [("root", ("t", k - 1))], []
        for i in range(k):
            s, t = ("s", i), ("t", i)
            pairs.append((s, t))
            up = ("s", i + 1) if i < k - 1 else "root"
            if i < k - 1:
                edges.append((t, up))
        edges.append((("s", 0), ("s", 1)))
        for i in range(k - 1):
            last = ("t", i)
            for j in range(2):
                a, b = ("p", i, j), ("q", i, j)
                edges.append((last, a))
                pairs.append((a, b))
                last = b
            edges.append((last, ("s", i + 2) if i < k - 2 else "root"))
        edges.append((("t", k - 1), "end"))
        place = {}
        for e in edges[:1] + pairs + edges:
            for x in e:
                place.setdefault(x, len(place))
        self.n = len(place)
        self.names = N = named(sim, self.n, sim.pick(("int", "str", "opaque")))
        if sim.flag(1, 4):
            self.order = 2
        else:
            self.order = 0
        adj = {v: [] for v in N}
        for x, y in pairs + edges:
            adj[N[place[x]]].append(N[place[y]])
            adj[N[place[y]]].append(N[place[x]])
        self.adj = self.arrange(sim, adj)
        self.G = represent(sim, self.adj)
        self.init = {}
        for x, y in pairs:
            self.init[N[place[x]]] = N[place[y]]
            self.init[N[place[y]]] = N[place[x]]

    def fingerprint(self):
        return freeze([self.G, self.init])

    def body(self, cx):
        M = cx.L.cardinality_matching.matching(self.G, dict(self.init))
        check(len(M) == self.n, "matching covers %d of %d vertices"
              % (len(M), self.n))
        check(all([M[M[v]] == v and M[v] in self.adj[v] for v in M]),
              "not a matching")
        yield


class DeepLogic(Deep):
    def sim_draw(self, sim):
        self.sat = sim.flag(2, 3)
        self.n = 2 * FRAMES + sim.choose(30)

    def fingerprint(self):
        return None

    def body(self, cx):
        T = cx.L.two_satisfiability
        Not = cx.L._not.Not
        g = {i: [i + 1] for i in range(self.n)}
        g[self.n] = [] if self.sat else [Not(0)]
        if not self.sat:
            g[Not(self.n)] = [0]
        for i in range(self.n + 1):
            g.setdefault(Not(i), [])
        check(T.Satisfiable(g), "a chain is satisfiable")
        yield
        F = T.Forced(g)
        check(F is not None and
              set(F) == (set() if self.sat else set(F)) and
              (self.sat or (F.get(self.n) is True and F.get(0) is False)),
              "forced values")
        yield


class DeepUnion(Deep):
    def sim_draw(self, sim):
        self.links = [(i, i + 1) for i in range(self.n - 1)]
        self.links = sim.shuffled(self.links) if self.order == 2 else \
            self.links[::-1] if self.order == 1 else self.links

    def body(self, cx):
        U = cx.L.union_find.UnionFind()
        N = self.names
        for i, j in self.links:
            U.union(N[i], N[j])
        check(len({U[v] for v in N}) == 1, "one class")
        yield
        G = {v: {} for v in N}
        for i, j in self.links:
            G[N[i]][N[j]] = G[N[j]][N[i]] = 1
        T = list(cx.L.minimum_spanning_tree.MinimumSpanningTree(G))
        check(len(T) == self.n - 1, "spanning tree")
        yield


class DeepStreams(Deep):
    """Long sequences."""

    def sim_draw(self, sim):
        self.k = sim.choose(5)
        self.word = [sim.choose(3) for _ in range(self.n)]

    def body(self, cx):
        L = cx.L
        n = self.n
        if self.k == 0:
            S = L.sequence.Sequence(list(range(n)))
            for i in range(n, 2 * n):
                S.append(i)
            check(list(S) == list(range(2 * n)), "sequence")
            yield
            O = L.ordered_sequence.LogarithmicOrderedSequence([0])
            for i in range(1, n):
                O.insertAfter(0, i)
            check(list(O) == [0] + list(range(n - 1, 0, -1)) and
                  O.cmp(0, n - 1) < 0 < O.cmp(1, 2), "ordered sequence")
            yield
            Q = L.bucketqueue.BucketQueue()
            for i in range(n):
                Q[i] = n - i
            check(list(Q) == list(range(n - 1, -1, -1)), "queue")
        elif self.k == 1:
            W = self.word
            F = [tuple(f) for f in L.lyndon.ChenFoxLyndon(W)]
            check([x for f in F for x in f] == W and
                  all([a >= b for a, b in zip(F, F[1:])]), "Lyndon factors")
            yield
            check("".join(L.lyndon.ChenFoxLyndon("abac" * (n // 4))) ==
                  "abac" * (n // 4), "Lyndon factors")
            R = L.lyndon.SmallestRotation(W)
            check(list(R) == min([W[i:] + W[:i] for i in range(n)]),
                  "least rotation")
        elif self.k == 2:
            I = L.longest_increasing_subsequence \
                .longest_increasing_subsequence(list(range(n)))
            check(list(I) == list(range(n)), "increasing subsequence")
            yield
            m = n // 3
            C = L.lcs.longest_common_subsequence("ab" * m, "ab" * m)
            check("".join(C) == "ab" * m, "common subsequence")
        elif self.k == 3:
            P = L.integer_heap.LinearHeap()
            for i in range(n):
                P.add(i)
            check(P.min() == 0, "heap")
            yield
            M = L.integer_partitions.mckay(n)
            for i in range(n):
                p = list(next(M))
                check(sum(p) == n, "partition")
            yield
            p = [1] * n
            check(list(L.integer_partitions.conjugate(p)) == [n], "conjugate")
            W = L.lyndon.LengthLimitedLyndonWords(2, n)
            check([len(next(W)) for _ in range(3)] == [1, n, n - 1],
                  "Lyndon words")
        else:
            words = ["word%d" % i for i in range(n)]
            lines = L.wrap.wrap(" ".join(words), target=40)
            check(" ".join(lines) == " ".join(words), "wrapped text")
            yield
            A = L.smawk.ConcaveMinima(list(range(n)), list(range(n)),
                                      lambda i, j: (i - j) ** 2)
            check(all([A[j] == (0, j) for j in range(n)]), "column minima")
        yield
