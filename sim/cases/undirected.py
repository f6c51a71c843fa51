"""Biconnectivity, bipartiteness, matchings, cycles, trees, cores, chords."""

from itertools import combinations

from ..engine import touch
from ..env import (GraphProxy, add_edge, components, dag, digraph, freeze,
                   fresh, how_many, namer, reach, rename, reorder, represent,
                   scribble, undirected)
from ..scenario import Case, check, expect, wrong
from .search import GraphCase, acyclic


class UndirectedCase(GraphCase):
    nmin = 0
    nmax = 9
    connected = False
    spoil = 0       # chance in 8 of a directed edge
    huge = 160

    def generate(self, sim):
        adj = undirected(sim, self.nmin, self.nmax, self.connected,
                         self.big, self.huge)
        self.bad = False
        if self.spoil and sim.flag(self.spoil, 8) and adj:
            a, b = sim.choose(len(adj)), sim.choose(len(adj))
            if a == b:
                adj[a].append(a)
            elif b in adj[a]:
                adj[a].remove(b)
            else:
                adj[a].append(b)
            self.bad = True
        return adj


def edge_set(adj):
    return {frozenset((v, w)) for v in adj for w in adj[v]}


def blocks(adj):
    """Vertex-and-edge sets of the biconnected components, by definition:
    edges va, vb belong together when a and b are connected without v."""
    edges = [frozenset(e) for e in edge_set(adj)]
    group = {e: e for e in edges}

    def find(e):
        while group[e] != e:
            e = group[e]
        return e
    for v in adj:
        rest = {x: [y for y in adj[x] if y != v] for x in adj if x != v}
        for a, b in combinations(adj[v], 2):
            if b in reach(rest, a):
                x, y = find(frozenset((v, a))), find(frozenset((v, b)))
                if x != y:
                    group[x] = y
    out = {}
    for e in edges:
        out.setdefault(find(e), set()).add(e)
    res = [(frozenset([v for e in es for v in e]), frozenset(es))
           for es in out.values()]
    res += [(frozenset([v]), frozenset()) for v in adj if not adj[v]]
    return res


def colourable(adj):
    color = {}
    for s in adj:
        if s in color:
            continue
        color[s] = 0
        todo = [s]
        while todo:
            x = todo.pop()
            for y in adj[x]:
                if y not in color:
                    color[y] = 1 - color[x]
                    todo.append(y)
                elif color[y] == color[x]:
                    return False
    return True


class Biconnected(UndirectedCase):
    spoil = 1

    def body(self, cx):
        B = cx.L.biconnectivity
        if self.bad:
            expect(ValueError, lambda: B.BiconnectedComponents(self.G),
                   "components of a directed graph")
            check(not B.is_biconnected(self.G), "directed graph biconnected")
            return
        want = blocks(self.adj)
        C = B.BiconnectedComponents(self.G)
        yield
        got = []
        for comp in C:
            got.append((frozenset(comp), frozenset(edge_set(comp))))
            for v in comp:
                for w in comp[v]:
                    check(v in comp[w], "component is not undirected")
            scribble(comp)
            yield
        check(len(got) == len(want) and set(got) == set(want),
              "components %r" % (got,))
        if self.adj:
            check(bool(B.is_biconnected(self.G)) == (len(want) == 1),
                  "is_biconnected")


class StOrientation(UndirectedCase):
    nmin = 2
    huge = 60
    spoil = 1

    def generate(self, sim):
        adj = UndirectedCase.generate(self, sim)
        if not self.bad and sim.flag(2, 3):
            # add ears until biconnected
            for i in range(len(adj)):
                if len(blocks(adj)) == 1:
                    break
                add_edge(adj, i, (i + 1) % len(adj))
        return adj

    def body(self, cx):
        B = cx.L.biconnectivity
        if self.bad:
            expect(ValueError, lambda: B.st_orientation(self.G),
                   "orientation of a directed graph")
            return
        if len(blocks(self.adj)) != 1:
            expect(B.NotBiconnected, lambda: B.st_orientation(self.G),
                   "orientation of a graph that is not biconnected")
            return
        D = B.st_orientation(self.G)
        yield
        arcs = [(v, w) for v in D for w in D[v]]
        check(set(D) == set(self.verts), "vertices of the orientation")
        check(len(arcs) == len(edge_set(self.adj)) and
              {frozenset(a) for a in arcs} == edge_set(self.adj),
              "orientation has the wrong edges")
        check(acyclic({v: list(D[v]) for v in D}), "orientation has a cycle")
        heads = {w for v, w in arcs}
        check(len([v for v in D if v not in heads]) == 1, "several sources")
        check(len([v for v in D if not D[v]]) == 1, "several sinks")
        scribble(D)


class TwoColour(UndirectedCase):
    def draw(self, sim):
        self.stop = sim.choose(4)

    def body(self, cx):
        B = cx.L.bipartite
        ok = colourable(self.adj)
        check(bool(B.is_bipartite(self.G)) == ok, "is_bipartite")
        yield
        if not ok:
            expect(B.NonBipartite, lambda: B.two_color(self.G), "two_color")
            yield
            expect(B.NonBipartite, lambda: list(B.bipartition(self.G)),
                   "bipartition")
            yield
            expect(B.NonBipartite,
                   lambda: B.bipartite_orientation(self.G),
                   "bipartite_orientation")
            return
        c = B.two_color(self.G)
        check(set(c) == set(self.verts), "colouring misses vertices")
        check(all([bool(c[v]) != bool(c[w]) for v in self.adj
                   for w in self.adj[v]]), "neighbours share a colour")
        yield
        side = []
        for v in B.bipartition(self.G):
            side.append(v)
            yield
        check(len(set(side)) == len(side) and set(side) <= set(self.verts),
              "side lists a vertex twice")
        s = set(side)
        check(all([(v in s) != (w in s) for v in self.adj
                   for w in self.adj[v]]), "not a bipartition: %r" % (side,))

        def factory(seq):
            touch("adjacency factory")
            return list(seq)
        for D in (B.bipartite_orientation(self.G, factory),
                  B.bipartite_orientation(self.G)):
            yield
            check(all([sorted(map(repr, D[v])) ==
                       sorted(map(repr, self.adj[v]))
                       for v in D]), "orientation changed an adjacency")
            check(all([(v in D) != (w in D) for v in self.adj
                       for w in self.adj[v]]), "orientation sides")
            scribble(D)
        scribble(c)


class OddCore(UndirectedCase):
    def body(self, cx):
        H = cx.L.bipartite.odd_core(self.G)
        yield
        V, Ed = set(), set()
        for vs, es in blocks(self.adj):
            sub = {v: [w for w in vs if frozenset((v, w)) in es] for v in vs}
            if not colourable(sub):
                V |= vs
                Ed |= es
        check(set(H) == V, "odd core vertices %r, not %r" % (set(H), V))
        check(edge_set(H) == Ed, "odd core edges")
        scribble(H)


# -- bipartite matching and what follows from it -----------------------------------

def kuhn(adj):
    """Maximum matching {right: left} of a bipartite graph left->[right]."""
    M = {}

    def grow(u, seen):
        for v in adj[u]:
            if v not in seen:
                seen.add(v)
                if v not in M or grow(M[v], seen):
                    M[v] = u
                    return True
        return False
    for u in adj:
        grow(u, set())
    return M


def bipartite_adj(sim, nmax=7, square=False):
    n = how_many(sim, 0, nmax, 20)
    m = n if square else how_many(sim, 0, nmax, 20)
    den = sim.pick((2, 3, 4)) if n + m <= 2 * nmax else sim.pick((4, 8, n))
    adj = {i: [] for i in range(n)}
    for i in range(n):
        for j in range(m):
            if sim.flag(1, den) or (square and i == j and sim.choose(8)):
                adj[i].append(j)
    return adj, m


class BipMatching(Case):
    """Maximum matching and the matching independent set."""

    def __init__(self, sim):
        adj, m = bipartite_adj(sim)
        left = namer(sim, len(adj))
        # the same object may stand on both sides
        right = left + namer(sim, m) if sim.flag(1, 3) else namer(sim, m)
        right = list(dict.fromkeys(right))[:m]
        right += [("x", i) for i in range(m - len(right))]
        self.adj = {left[i]: sim.shuffled([right[j] for j in adj[i]])
                    for i in sim.shuffled(list(adj))}
        self.G = represent(sim, self.adj)

    def fingerprint(self):
        return freeze(self.G)

    def describe(self):
        return repr(self.adj)

    def body(self, cx):
        M, A, B = cx.L.bipartite_matching.matching(self.G)
        yield
        V = {v for u in self.adj for v in self.adj[u]}
        best = len(kuhn(self.adj))
        check(len(M) == best, "matching of size %d, not %d" % (len(M), best))
        check(len(set(M.values())) == len(M), "vertex matched twice")
        check(all([v in self.adj[M[v]] for v in M]), "match is not an edge")
        sa, sb = set(A), set(B)
        check(len(sa) == len(list(A)) and len(sb) == len(list(B)),
              "independent set lists a vertex twice")
        check(sa <= set(self.adj) and sb <= V, "independent set leaves graph")
        check(not any([v in sb for u in sa for v in self.adj[u]]),
              "set is not independent")
        check(len(sa) + len(sb) == len(self.adj) + len(V) - best,
              "independent set is not maximum")
        scribble(M, A, B)


class Imperfect(BipMatching):
    def __init__(self, sim):
        n = sim.small(0, 6)
        m = n if sim.flag(3, 4) else sim.small(0, 6)
        den = sim.pick((2, 3, 5))
        left, right = namer(sim, n), namer(sim, m)
        self.adj = {}
        for i in sim.shuffled(range(n)):
            self.adj[left[i]] = [right[j] for j in sim.shuffled(range(m))
                                 if sim.flag(1, den) or
                                 (i == j and sim.choose(8))]
        self.G = represent(sim, self.adj)

    def body(self, cx):
        H = cx.L.bipartite_matching.imperfections(self.G)
        yield
        V = {v for u in self.adj for v in self.adj[u]}
        n = len(self.adj)
        perfect = len(V) == n and len(kuhn(self.adj)) == n

        def allowed(u, v):
            if not perfect:
                return False
            rest = {x: [y for y in self.adj[x] if y != v]
                    for x in self.adj if x != u}
            return len(kuhn(rest)) == n - 1
        got = {(u, v) for u in H for v in H[u]}
        want = {(u, v) for u in self.adj for v in self.adj[u]
                if not allowed(u, v)}
        check(got == want, "imperfect edges %r, not %r" % (got, want))
        if perfect:
            for u, v in got:
                sub = H[u][v]
                K = set(sub)
                X = {y for x in sub for y in sub[x]}
                check(v in X and u not in K, "certificate of %r,%r" % (u, v))
                check(all([y in self.adj[x] for x in sub for y in sub[x]]),
                      "certificate is not a subgraph")
                check(len(K) == len(X), "certificate is unbalanced")
                check(all([y in X for x in K for y in self.adj[x]
                           if allowed(x, y)]),
                      "certificate vertices may match outside")
            scribble(H)


class PathCover(GraphCase):
    nmax = 9

    def generate(self, sim):
        if sim.flag(1, 3):       # sparse, unions of paths
            n = sim.small(0, 9)
            adj = {i: [] for i in range(n)}
            for i in range(1, n):
                if sim.choose(3):
                    adj[i - 1].append(i)
            return adj
        return dag(sim, self.nmax, self.big, 100)

    def body(self, cx):
        P = cx.L.partial_order
        clos = {v: sorted(reach(self.adj, v) - {v}, key=self.verts.index)
                for v in self.adj}
        for name, fn, edges in (
                ("path", P.MinimumPathDecomposition, self.adj),
                ("chain", P.MinimumChainDecomposition, clos)):
            got = []
            for path in fn(self.G):
                got.append(list(path))
                scribble(path)
                check(len(got) <= len(self.verts), "too many pieces")
                yield
            flat = [v for p in got for v in p]
            check(len(flat) == len(self.verts) and
                  set(flat) == set(self.verts),
                  "%s cover %r does not partition the vertices" % (name, got))
            check(all([b in edges[a] for p in got for a, b in zip(p, p[1:])]),
                  "%s cover %r has a gap" % (name, got))
            best = len(self.verts) - len(kuhn(edges))
            check(len(got) == best, "%s cover of %d pieces, not %d: %r"
                  % (name, len(got), best, got))


class Antichain(GraphCase):
    def generate(self, sim):
        if sim.flag(1, 8):
            return digraph(sim, 5)
        return dag(sim, self.nmax, self.big, 100)

    def body(self, cx):
        P = cx.L.partial_order
        if not acyclic(self.adj):
            expect(ValueError, lambda: P.MaximumAntichain(self.G),
                   "antichain of a cyclic graph")
            return
        A = P.MaximumAntichain(self.G)
        yield
        clos = {v: reach(self.adj, v) - {v} for v in self.adj}
        check(len(set(A)) == len(A) and set(A) <= set(self.verts),
              "antichain members")
        check(not any([w in clos[v] for v in A for w in A]),
              "%r is no antichain" % (A,))
        best = len(self.verts) - len(kuhn(clos))
        check(len(A) == best, "antichain of %d, not %d" % (len(A), best))
        scribble(A)


# -- general matching ------------------------------------------------------------------

def tutte_rank(adj):
    """Rank of a random skew-symmetric matrix with the graph's pattern."""
    prime = (1 << 61) - 1
    verts = list(adj)
    n = len(verts)
    M = [[0] * n for _ in verts]
    for i, v in enumerate(verts):
        for w in adj[v]:
            j = verts.index(w)
            if i < j:
                x = (i * 1000003 + j + 1) * 0x9E3779B97F4A7C15 % prime
                x = x * x % prime
                M[i][j], M[j][i] = x, prime - x
    rank = 0
    for c in range(n):
        p = next((r for r in range(rank, n) if M[r][c]), None)
        if p is None:
            continue
        M[rank], M[p] = M[p], M[rank]
        inv = pow(M[rank][c], -1, prime)
        for r in range(rank + 1, n):
            if M[r][c]:
                f = M[r][c] * inv % prime
                M[r] = [(a - f * b) % prime
                        for a, b in zip(M[r], M[rank])]
        rank += 1
    return rank


def max_matching_size(adj):
    verts = list(adj)
    if len(verts) > 13:
        return tutte_rank(adj) // 2
    bit = {v: i for i, v in enumerate(verts)}
    nb = [0] * len(verts)
    for v in adj:
        for w in adj[v]:
            nb[bit[v]] |= 1 << bit[w]
    memo = {0: 0}

    def best(mask):
        if mask in memo:
            return memo[mask]
        i = mask.bit_length() - 1
        rest = mask & ~(1 << i)
        r = best(rest)
        m = nb[i] & rest
        while m:
            b = m & -m
            r = max(r, 1 + best(rest & ~b))
            m &= m - 1
        memo[mask] = r
        return r
    return best((1 << len(verts)) - 1)


class GeneralMatching(UndirectedCase):
    """Maximum matching from scratch or from a caller's partial matching."""

    nmax = 11

    def __init__(self, sim):
        self.pairs = None
        adj = self.generate(sim)
        names = namer(sim, len(adj))
        self.adj = reorder(sim, rename(adj, names))
        self.G = represent(sim, self.adj)
        self.verts = list(self.adj)
        self.initial = None
        if self.pairs is not None:
            self.initial = {}
            for a, b in self.pairs:
                self.initial[names[a]] = names[b]
                self.initial[names[b]] = names[a]
        else:
            self.draw(sim)

    def generate(self, sim):
        style = sim.choose(6)
        if sim.flag(1, 80):
            # many short paths with only their inner edges matched
            k = 8 + sim.choose(16)
            adj = {i: [] for i in range(4 * k)}
            self.pairs = []
            for i in range(0, 4 * k, 4):
                for j in (i, i + 1, i + 2):
                    add_edge(adj, j, j + 1)
                self.pairs.append((i + 1, i + 2))
            for _ in range(sim.choose(k)):
                a, b = sim.choose(k), sim.choose(k)
                if a != b:
                    add_edge(adj, 4 * a + 1, 4 * b + 2)
            return adj
        if style < 2:
            return undirected(sim, 0, self.nmax, big=self.big, huge=90)
        if style > 3:
            # a matching with few vertices left over, so that augmenting
            # takes long paths through whatever lies between
            k = 2 + sim.choose(6 if style == 4 else 12)
            self.pairs = [(2 * i, 2 * i + 1) for i in range(k)]
            n = 2 * k + 1 + sim.choose(3)
            adj = {i: [] for i in range(n)}
            for a, b in self.pairs:
                add_edge(adj, a, b)
            for i in range(1, n):       # a stem with branches
                if i % 2 == 0:
                    back = 1 + sim.choose(4) if sim.flag() else 1
                    add_edge(adj, i, max(0, i - back))
            for _ in range(sim.choose(k + 2)):
                a, b = sim.choose(2 * k), sim.choose(2 * k)
                if a != b:
                    add_edge(adj, a, b)
            for i in range(2 * k, n):
                a = sim.choose(2 * k)
                add_edge(adj, i, a)
            return adj
        # odd cycles hanging together: blossoms inside blossoms
        n = 1
        adj = {0: []}
        top = 40 if sim.flag(1, 8) else 13
        for _ in range(1 + sim.choose(4 if top == 13 else 14)):
            k = sim.pick((3, 5, 2, 4, 7))
            if n + k > top:
                break
            base = sim.choose(n)
            ring = [base] + list(range(n, n + k - 1))
            for i in range(n, n + k - 1):
                adj[i] = []
            n += k - 1
            for a, b in zip(ring, ring[1:] + ring[:1]):
                add_edge(adj, a, b)
        for _ in range(sim.choose(3)):
            add_edge(adj, sim.choose(n), sim.choose(n))
        return adj

    def draw(self, sim):
        if sim.flag(1, 2):
            m = {}
            for e in [(v, w) for v in self.adj for w in self.adj[v]]:
                if e[0] not in m and e[1] not in m and sim.flag(1, 2):
                    m[e[0]] = e[1]
                    m[e[1]] = e[0]
            self.initial = m

    def fingerprint(self):
        return freeze([self.G, self.initial])

    def valid(self, M, what):
        for v in M:
            check(M[v] in self.adj[v], "%s matches a non-edge" % what)
            check(M[M[v]] == v, "%s is not symmetric" % what)

    def body(self, cx):
        C = cx.L.cardinality_matching
        best = max_matching_size(self.adj)
        if self.initial is None:
            M = C.matching(self.G)
        else:
            M = C.matching(self.G, self.initial)
        yield
        self.valid(M, "matching")
        check(len(M) == 2 * best, "matching of %d edges, not %d"
              % (len(M) // 2, best))
        if self.initial is not None:
            check(all([v in M for v in self.initial]),
                  "a vertex of the initial matching was left out")
        scribble(M)
        M = C.greedy_matching(self.G, self.initial)
        yield
        self.valid(M, "greedy matching")
        if self.initial:
            check(all([M[v] == self.initial[v] for v in self.initial]),
                  "greedy matching dropped an initial edge")
        check(all([v in M or w in M for v in self.adj
                   for w in self.adj[v]]), "greedy matching is not maximal")
        scribble(M)


# -- Hamiltonian cycles -------------------------------------------------------------------

def ham_cycles(adj):
    verts = list(adj)
    n = len(verts)
    out = set()
    if n < 3:
        return out
    s = verts[0]

    def go(path, seen):
        if len(path) == n:
            if s in adj[path[-1]]:
                out.add(frozenset([frozenset(e) for e in
                                   zip(path, path[1:] + path[:1])]))
            return
        for w in adj[path[-1]]:
            if w not in seen:
                go(path + [w], seen | {w})
    go([s], {s})
    return out


def larger_cubic(sim):
    """Cubic pieces joined by bridges or pairs of edges, with triangles in
    place of some vertices."""
    def piece(base):
        kind = sim.choose(4)
        if kind == 0:
            e = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
        elif kind == 1:
            e = [(i, 3 + j) for i in range(3) for j in range(3)]
        elif kind == 2:
            e = [(i, (i + 1) % 5) for i in range(5)] + \
                [(i, 5 + i) for i in range(5)] + \
                [(5 + i, 5 + (i + 2) % 5) for i in range(5)]
        else:
            h = 3 + sim.choose(2)
            e = [(i, (i + 1) % h) for i in range(h)] + \
                [(h + i, h + (i + 1) % h) for i in range(h)] + \
                [(i, h + i) for i in range(h)]
        return [(base + a, base + b) for a, b in e]

    def size():
        return 1 + max([max(e) for e in edges])
    edges = piece(0)
    while size() <= 8 and sim.flag(1, 2):
        n = size()
        more = piece(n)
        how = sim.choose(3)
        if how:
            a, b = edges.pop(sim.choose(len(edges)))
            c, d = more.pop(sim.choose(len(more)))
            edges += more
            if how == 1:
                edges += [(a, c), (b, d)]
            else:                       # one edge between two new vertices
                m = size()
                edges += [(a, m), (b, m), (c, m + 1), (d, m + 1), (m, m + 1)]
        else:
            edges += more
    adj = {i: [] for i in range(size())}
    for a, b in edges:
        add_edge(adj, a, b)
    for _ in range(sim.choose(4)):      # triangles
        if len(adj) > 12:
            break
        v = sim.choose(len(adj))
        if len(adj[v]) != 3:
            continue
        x, y, z = adj[v]
        m = len(adj)
        adj[m], adj[m + 1] = [], []
        for old, new in ((y, m), (z, m + 1)):
            adj[v].remove(old)
            adj[old].remove(v)
            add_edge(adj, old, new)
        add_edge(adj, v, m)
        add_edge(adj, v, m + 1)
        add_edge(adj, m, m + 1)
    for _ in range(sim.choose(6)):      # exchange two edges
        a = sim.choose(len(adj))
        b = adj[a][sim.choose(len(adj[a]))]
        c = sim.choose(len(adj))
        d = adj[c][sim.choose(len(adj[c]))]
        if len({a, b, c, d}) == 4 and c not in adj[a] and d not in adj[b]:
            for u, w in ((a, b), (c, d)):
                adj[u].remove(w)
                adj[w].remove(u)
            add_edge(adj, a, c)
            add_edge(adj, b, d)
    if sim.flag(1, 3):
        a = sim.choose(len(adj))
        if adj[a]:
            b = adj[a].pop(sim.choose(len(adj[a])))
            adj[b].remove(a)
    return adj


def cubic_adj(sim):
    """Graphs of maximum degree three with a fair chance of a cycle."""
    style = sim.choose(8)
    if style > 4:
        return larger_cubic(sim)
    n = sim.pick((3, 4, 5, 6, 7, 8, 9, 10))
    adj = {i: [] for i in range(n)}
    if style == 0:
        pass
    else:
        for i in range(n):
            add_edge(adj, i, (i + 1) % n)
    if style == 4:           # prism
        if n % 2 == 0 and n >= 6:
            adj = {i: [] for i in range(n)}
            h = n // 2
            for i in range(h):
                add_edge(adj, i, (i + 1) % h)
                add_edge(adj, h + i, h + (i + 1) % h)
                add_edge(adj, i, h + i)
    for _ in range(2 * n):
        a, b = sim.choose(n), sim.choose(n)
        if a != b and len(adj[a]) < 3 and len(adj[b]) < 3:
            add_edge(adj, a, b)
        if sim.flag(1, 12):
            break
    return adj


class CubicHam(GraphCase):
    budget = 3000000

    def generate(self, sim):
        adj = cubic_adj(sim)
        self.bad = False
        if sim.flag(1, 8):
            self.bad = True
            k = sim.choose(3)
            if k == 0:
                return {}
            if k == 1:
                a = sim.choose(len(adj))
                if not adj[a]:
                    adj[a].append((a + 1) % len(adj))
                    if a in adj[adj[a][0]]:
                        self.bad = False
                else:
                    adj[a].pop()
                if all([v in adj[w] for v in adj for w in adj[v]]):
                    self.bad = False
            else:
                n = len(adj)
                for i in range(1, n):
                    add_edge(adj, 0, i)
                self.bad = n > 4
        return adj

    def body(self, cx):
        H = cx.L.cubic_ham.hamiltonian_cycles
        if self.bad:
            expect(ValueError, lambda: list(H(self.G)), "invalid input")
            return
        want = ham_cycles(self.adj)
        got = set()
        for c in H(self.G):
            cyc = frozenset(edge_set(c))
            check(set(c) == set(self.verts), "cycle misses vertices")
            check(cyc in want, "not a Hamiltonian cycle: %r" % (c,))
            check(cyc not in got, "cycle listed twice: %r" % (c,))
            got.add(cyc)
            yield
        check(got == want, "%d of %d cycles" % (len(got), len(want)))


# -- spanning trees --------------------------------------------------------------------------

class Weight:
    """Edge length whose comparisons may fail or be preempted."""

    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w

    def __eq__(self, other):
        touch("length comparison")
        return isinstance(other, Weight) and self.w == other.w

    def __ne__(self, other):
        touch("length comparison")
        return not (isinstance(other, Weight) and self.w == other.w)

    def __lt__(self, other):
        touch("length comparison")
        return self.w < other.w

    def __gt__(self, other):
        touch("length comparison")
        return self.w > other.w

    def __le__(self, other):
        touch("length comparison")
        return self.w <= other.w

    def __ge__(self, other):
        touch("length comparison")
        return self.w >= other.w

    __hash__ = None

    def __repr__(self):
        return "W%r" % (self.w,)


class SpanningTree(UndirectedCase):
    spoil = 1

    def __init__(self, sim):
        adj = self.generate(sim)
        names = namer(sim, len(adj))
        self.adj = reorder(sim, rename(adj, names))
        self.verts = list(self.adj)
        span = sim.pick((1, 3, 20))
        kind = sim.choose(4)
        self.w = {}
        for e in sorted(edge_set(self.adj),
                        key=lambda e: sorted(map(self.verts.index, e))):
            x = sim.choose(span) - span // 3
            self.w[e] = (x, x / 4, Weight(x), (1 << 70) + x)[kind]
        self.asym = False
        data = {v: {fresh(w): self.w[frozenset((v, w))] for w in self.adj[v]}
                for v in self.adj}
        if not self.bad and self.w and sim.flag(1, 8):
            v = sim.pick([v for v in self.adj if self.adj[v]])
            w = sim.pick(self.adj[v])
            if v != w:
                x = data[v][w]
                data[v][w] = Weight(x.w + 1) if kind == 2 else x + 1
                self.asym = True
        self.data = data
        self.G = GraphProxy(data) if sim.flag(1, 3) else data

    def num(self, e):
        x = self.w[e]
        return x.w if isinstance(x, Weight) else x

    def fingerprint(self):
        return tuple([(v, tuple([(w, x.w if isinstance(x, Weight) else x)
                                 for w, x in self.data[v].items()]))
                      for v in self.data])

    def body(self, cx):
        T = cx.L.minimum_spanning_tree.MinimumSpanningTree
        if self.bad or self.asym:
            expect(ValueError, lambda: T(self.G), "invalid input")
            return
        tree = T(self.G)
        yield
        es = [frozenset(e) for e in tree]
        check(len(set(es)) == len(es) and set(es) <= set(self.w),
              "tree has edges that are not in the graph")
        comps = components(self.adj)
        check(len(es) == len(self.verts) - len(comps), "%d edges" % len(es))
        sub = {v: [] for v in self.verts}
        for e in es:
            a, b = tuple(e)
            sub[a].append(b)
            sub[b].append(a)
        check(len(components(sub)) == len(comps), "tree does not span")
        # Prim from each component
        best = 0
        for c in comps:
            start = next(v for v in self.verts if v in c)
            inside = {start}
            while len(inside) < len(c):
                e = min([(self.num(frozenset((v, w))), self.verts.index(w))
                         for v in inside for w in self.adj[v]
                         if w not in inside])
                best += e[0]
                inside.add(self.verts[e[1]])
        got = sum([self.num(e) for e in es])
        check(got == best, "length %r, not %r" % (got, best))
        scribble(tree)


# -- degeneracy ---------------------------------------------------------------------------------

def k_core(adj, k):
    vs = set(adj)
    while True:
        low = [v for v in vs if len([w for w in adj[v] if w in vs]) < k]
        if not low:
            return vs
        vs -= set(low)


def degeneracy_of(adj):
    k = 0
    while k_core(adj, k + 1):
        k += 1
    return k


class Degenerate(UndirectedCase):
    spoil = 1

    def draw(self, sim):
        self.k = sim.choose(6)

    def body(self, cx):
        D = cx.L.graphdegeneracy
        if self.bad:
            expect(TypeError, lambda: list(D.degeneracySequence(self.G)),
                   "directed input")
            return
        deg = degeneracy_of(self.adj)
        left = set(self.verts)
        for v, d in D.degeneracySequence(self.G):
            check(v in left, "vertex %r listed twice" % (v,))
            later = {x: len([w for w in self.adj[x] if w in left])
                     for x in left}
            check(d == later[v], "%r has %d later neighbours, not %r"
                  % (v, later[v], d))
            check(d == min(later.values()),
                  "%r is not of minimum degree among the rest" % (v,))
            left.remove(v)
            yield
        check(not left, "vertices missing")
        if self.verts:
            check(D.degeneracy(self.G) == deg, "degeneracy")
        yield
        O = D.degeneracyOrientation(self.G)
        arcs = [(v, w) for v in O for w in O[v]]
        check(set(O) == set(self.verts) and
              len(arcs) == len(edge_set(self.adj)) and
              {frozenset(a) for a in arcs} == edge_set(self.adj),
              "orientation is not of this graph")
        check(all([len(O[v]) <= deg for v in O]), "outdegree above degeneracy")
        check(acyclic({v: list(O[v]) for v in O}), "orientation is cyclic")
        scribble(O)
        yield
        c = set(D.core(self.G))
        check(c == (k_core(self.adj, deg) if self.verts else set()),
              "deepest core is %r" % (c,))
        yield
        c = set(D.core(self.G, self.k))
        check(c == k_core(self.adj, self.k), "%d-core is %r, not %r"
              % (self.k, c, k_core(self.adj, self.k)))


class Triangles(UndirectedCase):
    huge = 70

    def body(self, cx):
        want = {frozenset(t) for t in combinations(self.verts, 3)
                if t[1] in self.adj[t[0]] and t[2] in self.adj[t[0]]
                and t[2] in self.adj[t[1]]}
        got = set()
        for t in cx.L.graphdegeneracy.triangles(self.G):
            t = tuple(t)
            f = frozenset(t)
            check(len(t) == 3 and f in want, "%r is no triangle" % (t,))
            check(f not in got, "triangle %r listed twice" % (t,))
            got.add(f)
            yield
        check(got == want, "%d of %d triangles" % (len(got), len(want)))


# -- chordal graphs and lexicographic breadth-first search ------------------------------------------

def chordal_ref(adj):
    adj = {v: set(adj[v]) for v in adj}
    while adj:
        for v in adj:
            if all([b in adj[a] for a, b in combinations(adj[v], 2)]):
                break
        else:
            return False
        for w in adj[v]:
            adj[w].discard(v)
        del adj[v]
    return True


class LexBfs(UndirectedCase):
    nmax = 8
    huge = 60

    def body(self, cx):
        order = []
        for v in cx.L.lex_bfs.lex_bfs(self.G):
            order.append(v)
            check(len(order) <= len(self.verts), "too many vertices")
            yield
        check(len(order) == len(self.verts) and
              set(order) == set(self.verts), "order %r" % (order,))
        A = {v: set(self.adj[v]) for v in self.adj}
        n = len(order)
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(j + 1, n):
                    a, b, c = order[i], order[j], order[k]
                    if c in A[a] and b not in A[a]:
                        check(any([b in A[order[h]] and c not in A[order[h]]
                                   for h in range(i)]),
                              "order %r is not lexicographic" % (order,))


class Chordal(UndirectedCase):
    spoil = 1
    huge = 60

    def generate(self, sim):
        if sim.flag(1, 8):
            self.huge = 180
        adj = UndirectedCase.generate(self, sim)
        if not self.bad and sim.flag(1, 2):
            # add fill edges so that it is chordal
            for v in range(len(adj)):
                for a, b in combinations([w for w in adj[v] if w > v], 2):
                    add_edge(adj, a, b)
        return adj

    def body(self, cx):
        C = cx.L.chordal
        if self.bad:
            expect(ValueError, lambda: C.is_chordal(self.G), "directed input")
            return
        ok = chordal_ref(self.adj)
        check(bool(C.is_chordal(self.G)) == ok, "is_chordal")
        yield
        if not ok:
            expect(ValueError,
                   lambda: C.perfect_elimination_ordering(self.G),
                   "elimination of a graph that is not chordal")
            return
        L = C.perfect_elimination_ordering(self.G)
        check(len(L) == len(self.verts) and set(L) == set(self.verts),
              "ordering %r" % (L,))
        pos = {v: i for i, v in enumerate(L)}
        for v in L:
            later = [w for w in self.adj[v] if pos[w] > pos[v]]
            check(all([b in self.adj[a] for a, b in combinations(later, 2)]),
                  "%r is not a perfect elimination order" % (L,))
        scribble(L)
