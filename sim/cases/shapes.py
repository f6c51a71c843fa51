"""Subsequences, circle packings and named example graphs."""

from bisect import bisect_left
from cmath import phase
from math import inf, pi

from ..engine import E, touch
from ..env import freeze, how_many, named, NAMINGS, reorder, scribble
from ..scenario import Case, check, expect


# -- common and increasing subsequences ----------------------------------------

class Symbol:
    """Item whose comparisons are calls into the caller's code."""

    def __init__(self, v, tag=None):
        self.v = v
        self.tag = tag

    def __repr__(self):
        return "S%r" % (self.v,)

    def __eq__(self, other):
        touch("item comparison")
        return isinstance(other, Symbol) and self.v == other.v

    def __lt__(self, other):
        touch("item comparison")
        return self.v < other.v

    def __gt__(self, other):
        touch("item comparison")
        return self.v > other.v

    __hash__ = None


def embeds(sub, seq):
    """Is sub a subsequence of seq (by value)?"""
    k = 0
    for x in seq:
        if k < len(sub) and sub[k] == x:
            k += 1
    return k == len(sub)


def source(sim, items, wrap):
    """The same items as a list, a tuple, a string or a one-time iterator."""
    style = sim.choose(4)
    if style == 1:
        return lambda: tuple([wrap(x) for x in items])
    if style == 2:
        return lambda: "".join(["abcdefghijklmnopqrstuvwxyz"[x]
                                for x in items])
    if style == 3:
        def gen():
            for x in items:
                touch("items")
                yield wrap(x)
        return gen
    return lambda: [wrap(x) for x in items]


def plain(xs):
    return [x.v if isinstance(x, Symbol) else ord(x) - 97
            if isinstance(x, str) else x for x in xs]


class CommonSubsequence(Case):
    def __init__(self, sim):
        k = sim.pick((2, 1, 4, 12))
        self.A = [sim.choose(k) for _ in range(how_many(sim, 0, 10, 60))]
        self.B = [sim.choose(k) for _ in range(how_many(sim, 0, 10, 60))]
        if sim.flag(1, 4):
            # one is nearly the other
            self.B = [x for x in self.A if sim.flag(4, 5)]
        elif sim.flag(1, 16):
            # one is far longer than the other
            self.A = [sim.choose(k) for _ in range(sim.between(60, 300))]
            del self.B[6:]
            if sim.flag():
                self.A, self.B = self.B, self.A
        wrap = sim.pick((int, Symbol))
        self.fa = source(sim, self.A, wrap)
        self.fb = source(sim, self.B, wrap)
        if isinstance(self.fa(), str) or isinstance(self.fb(), str):
            self.fa = self.fb = None

    def describe(self):
        return "%r %r" % (self.A, self.B)

    def body(self, cx):
        if self.fa is None:
            A, B = ["".join([chr(97 + x) for x in s])
                    for s in (self.A, self.B)]
        else:
            A, B = self.fa(), self.fb()
        got = cx.L.lcs.longest_common_subsequence(A, B)
        yield
        check(isinstance(got, list), "result is %r" % (got,))
        got = plain(got)
        check(embeds(got, self.A) and embeds(got, self.B),
              "%r is not a common subsequence" % (got,))
        # best[k]: least prefix of B holding a common subsequence of length k
        best = [0]
        for x in self.A:
            for k in range(len(best) - 1, -1, -1):
                try:
                    j = self.B.index(x, best[k]) + 1
                except ValueError:
                    continue
                if k + 1 == len(best):
                    best.append(j)
                elif j < best[k + 1]:
                    best[k + 1] = j
        check(len(got) == len(best) - 1, "length %d, %d is possible"
              % (len(got), len(best) - 1))


class IncreasingSubsequence(Case):
    def __init__(self, sim):
        n = how_many(sim, 0, 14, 90)
        k = sim.pick((3, 8, 60))
        style = sim.choose(4)
        S = [sim.choose(k) for _ in range(n)]
        if style == 1:
            S.sort(reverse=True)
            for _ in range(sim.choose(4)):
                if n:
                    S[sim.choose(n)] = sim.choose(k)
        elif style == 2:
            S = sim.shuffled(list(range(n)))
        elif style == 3:
            # rising, with stretches moved elsewhere
            S = list(range(n))
            for _ in range(sim.small(1, 6)):
                a = sim.choose(n + 1)
                b = sim.between(a, n) if sim.flag(1, 3) else min(n, a + 3)
                part = S[a:b]
                del S[a:b]
                a = sim.choose(len(S) + 1)
                S[a:a] = part
        self.S = S
        self.wrap = sim.choose(4)

    def describe(self):
        return repr(self.S)

    def body(self, cx):
        S = self.S
        items = [Symbol(x, i) for i, x in enumerate(S)]
        if self.wrap == 0:
            X = list(S)
        elif self.wrap == 1:
            X = [(x // 2, x % 2) for x in S]
        elif self.wrap == 2:
            X = items
        else:
            X = (x for x in items)
        got = cx.L.longest_increasing_subsequence \
            .longest_increasing_subsequence(X)
        yield
        check(isinstance(got, list), "result is %r" % (got,))
        if self.wrap == 1:
            p = [2 * a + b for a, b in got]
        else:
            p = plain(got)
        check(all([a < b for a, b in zip(p, p[1:])]), "%r does not increase"
              % (p,))
        check(embeds(p, S), "%r is not a subsequence" % (p,))
        # length of the longest one ending at each place
        at = []
        for i, x in enumerate(S):
            at.append(1 + max([at[j] for j in range(i) if S[j] < x] + [0]))
        top = max(at + [0])
        check(len(p) == top, "length %d, %d is possible" % (len(p), top))
        if not top:
            return
        ends = [i for i in range(len(S)) if at[i] == top]
        least = min([S[i] for i in ends])
        check(p[-1] == least, "ends with %r, not %r" % (p[-1], least))
        if self.wrap >= 2:
            first = [i for i in ends if S[i] == least][0]
            check(got[-1].tag == first, "ends with a later occurrence of %r"
                  % (least,))


# -- circle packings ---------------------------------------------------------------

def triangulated_disk(sim, n):
    """(cycles of inner vertices, outer vertices): a wheel, refined by adding
    vertices in triangles, by splitting edges and by growing outwards."""
    k = 3 + sim.choose(4)
    inner = {0: list(range(1, k + 1))}
    outer = list(range(1, k + 1))
    faces = [(0, outer[i], outer[(i + 1) % k]) for i in range(k)]
    new = k + 1
    cyc = {0: list(outer)}

    def rotate(faces):
        """Clockwise or not, all alike: neighbours of v in cyclic order."""
        nxt = {}
        for f in faces:
            for i in range(3):
                nxt.setdefault(f[i], {})[f[(i + 1) % 3]] = f[(i + 2) % 3]
        return nxt
    for _ in range(n):
        what = sim.choose(3)
        if what == 0:
            f = faces.pop(sim.choose(len(faces)))
            faces += [(f[0], f[1], new), (f[1], f[2], new), (f[2], f[0], new)]
            new += 1
        elif what == 1:
            # split the edge between two faces
            i = sim.choose(len(faces))
            a, b, c = faces[i]
            mate = [g for g in faces if {a, b} <= set(g) and c not in g]
            if mate:
                d, = set(mate[0]) - {a, b}
                faces.remove(faces[i])
                faces.remove(mate[0])
                faces += [(a, new, c), (new, b, c), (b, new, d), (new, a, d)]
                new += 1
        else:
            # a new outer vertex that buries an outer one
            j = sim.choose(len(outer))
            p, q, r = outer[j - 1], outer[j], outer[(j + 1) % len(outer)]
            if len(outer) > 3 or p != r:
                faces += [(q, p, new), (r, q, new)]
                outer[j] = new
                new += 1
    nxt = rotate(faces)
    out = set(outer)
    cycles = {}
    for v in range(new):
        if v in out:
            continue
        start = sim.pick(sorted(nxt[v]))
        cyc = [start]
        while nxt[v][cyc[-1]] != start:
            cyc.append(nxt[v][cyc[-1]])
        cycles[v] = cyc
    return cycles, outer


def inner_connected(cycles):
    seen, todo = {min(cycles)}, [min(cycles)]
    while todo:
        for w in cycles[todo.pop()]:
            if w in cycles and w not in seen:
                seen.add(w)
                todo.append(w)
    return len(seen) == len(cycles)


class Packing(Case):
    """Radii and centres that make exactly the prescribed circles touch."""

    budget = 12000000

    def __init__(self, sim):
        cycles, outer = triangulated_disk(sim, sim.choose(6))
        names = named(sim, len(cycles) + len(outer),
                      sim.pick([k for k in NAMINGS if k != "empty"]))
        if sim.flag():
            cycles = {v: c[::-1] for v, c in cycles.items()}
        ids = sim.shuffled(list(range(len(cycles) + len(outer))))
        nm = {v: names[i] for v, i in
              zip(sorted(set(cycles) | set(outer)), ids)}
        self.inner = {nm[v]: sim.pick((list, tuple))([nm[w] for w in c])
                      for v, c in cycles.items()}
        r = [sim.pick((1, 2, 0.5, 1, 3.25)) for _ in outer] \
            if sim.flag() else [1] * len(outer)
        self.outer = {nm[v]: x for v, x in zip(outer, r)}
        self.bad = sim.choose(3) if sim.flag(1, 6) else None
        self.around = nm[sim.pick(outer)] if sim.flag(1, 4) else None
        self.small = sim.subset(sorted(self.inner, key=repr)) \
            if sim.flag() else None
        if self.small and (len(self.small) < 2 or self.around is None):
            # a lone circle is best made as large as the surrounding one
            self.small = None
        if self.small and sim.flag(1, 3):
            self.small.append(self.around)
        self.target = sim.pick((1.0, 5.0, 0.25))
        self.centre = complex(sim.choose(7) - 3 + .37, sim.choose(7) - 3 + .21)
        self.near = (sim.choose(len(names)),
                     sim.pick((0, 1e-2, 1e-4, 1e-7)) * sim.pick((1, -1j)))

    def describe(self):
        return "%r %r bad=%r" % (self.inner, self.outer, self.bad)

    def fingerprint(self):
        return freeze([self.inner, self.outer])

    def tangent(self, pk, eps, around=None, overlap=()):
        top = max([r for z, r in pk.values()])
        for v in self.inner:
            for i, w in enumerate(self.inner[v]):
                for a, b in ((v, w), (self.inner[v][i - 1], w)):
                    d = abs(pk[a][0] - pk[b][0])
                    s = pk[a][1] + pk[b][1]
                    if around is not None and (a == around or b == around):
                        s = abs(pk[a][1] - pk[b][1])
                    elif a in overlap or b in overlap:
                        continue
                    check(abs(d - s) <= eps * top, "circles %r and %r do not "
                          "touch: %r and %r" % (a, b, d, s))

    def body(self, cx):
        C = cx.L.circle_pack
        if self.bad == 0:
            out = dict(self.outer)
            out[next(iter(out))] = 0
            expect(ValueError, lambda: C.circle_pack(self.inner, out),
                   "radius zero")
            yield
        elif self.bad == 1:
            out = dict(self.outer)
            out[next(iter(self.inner))] = 1
            expect(ValueError, lambda: C.circle_pack(self.inner, out),
                   "circle inside and outside")
            yield
        pk = C.circle_pack(self.inner, self.outer)
        check(set(pk) == set(self.inner) | set(self.outer), "circles listed")
        yield
        for v, r in self.outer.items():
            check(pk[v][1] == r, "radius of %r is %r, not %r"
                  % (v, pk[v][1], r))
        check(all([r > 0 for z, r in pk.values()]), "radii")
        self.tangent(pk, 1e-6)
        vs = list(self.inner)
        for v in vs:
            # the surrounding circles go round once
            turn = 0
            for i, w in enumerate(self.inner[v]):
                a, b = pk[self.inner[v][i - 1]], pk[w]
                turn += phase((b[0] - pk[v][0]) / (a[0] - pk[v][0]))
            check(abs(abs(turn) - 2 * pi) < 1e-6, "circles around %r turn "
                  "by %r" % (v, turn))
        snap = freeze(pk)
        N = C.NormalizePacking(pk, target=self.target)
        check(abs(min([r for z, r in N.values()]) - self.target) < 1e-9,
              "smallest radius")
        self.tangent(N, 1e-6)
        k = vs[-1]
        N = C.NormalizePacking(pk, k)
        check(abs(N[k][1] - 1) < 1e-9, "radius asked for")
        i, off = self.near
        v = list(pk)[i]
        for centre in (self.centre, pk[v][0] + off * pk[v][1]):
            I = C.InvertPacking(pk, centre)
            yield
            for v, (z, r) in pk.items():
                # points of the circle go to points of its image
                for at in (1j, -0.8 + 0.6j, 1):
                    w = 1 / (z + r * at - centre)
                    d = abs(abs(w - I[v][0]) - I[v][1])
                    check(d <= 1e-6 * max(1, abs(w), I[v][1]),
                          "inverse of circle %r" % (v,))
        check(freeze(pk) == snap, "packing was changed")
        if self.around is not None:
            k = self.around
            look = self.small or list(pk)
            A = C.InvertAround(pk, k, self.small) if self.small \
                else C.InvertAround(pk, k)
            yield
            zk, rk = A[k]
            overlap = set()
            for v, (z, r) in A.items():
                # outer circles may overlap if their radii ask for it
                if v == k:
                    continue
                if abs(pk[v][0] - pk[k][0]) > \
                        (pk[v][1] + pk[k][1]) * (1 - 1e-6):
                    check(abs(z - zk) + r <= rk * (1 + 1e-6),
                          "circle %r sticks out" % (v,))
                else:
                    overlap.add(v)
            self.tangent(A, 1e-5, k, overlap)
            best = min([A[v][1] for v in look]) / rk
            z, r = pk[k]
            for i in range(-2, 3):
                for j in range(-2, 3):
                    T = C.InvertPacking(pk, z + r * complex(i, j) * 0.33)
                    m = min([T[v][1] for v in look]) / T[k][1]
                    check(m <= best * (1 + 1e-6), "a better centre exists")
            check(freeze(pk) == snap, "packing was changed")
            scribble(A)
        scribble(pk, N, I)


# -- named graphs --------------------------------------------------------------------

NAMED = {"PetersenGraph": (10, 5, 2, False), "DesarguesGraph": (20, 6, 5, True),
         "CoxeterGraph": (28, 7, 4, False), "McGeeGraph": (24, 7, 4, False),
         "DyckGraph": (32, 6, 5, True), "PappusGraph": (18, 6, 4, True),
         "TutteCoxeterGraph": (30, 8, 4, True), "GrayGraph": (54, 8, 6, True)}


def shape(G):
    """(order, girth, diameter, bipartite) of a connected cubic graph, or
    what is wrong with it."""
    for v in G:
        if len(list(G[v])) != 3 or len(set(G[v])) != 3 or v in G[v]:
            return "%r does not have three neighbours" % (v,)
        for w in G[v]:
            if w not in G or v not in G[w]:
                return "edge %r-%r goes one way" % (v, w)
    girth, diam, bip = inf, 0, True
    for s in G:
        dist = {s: 0}
        par = {s: None}
        todo = [s]
        for v in todo:
            for w in G[v]:
                if w not in dist:
                    dist[w] = dist[v] + 1
                    par[w] = v
                    todo.append(w)
                elif par[v] != w:
                    girth = min(girth, dist[v] + dist[w] + 1)
                    bip = bip and (dist[v] + dist[w]) % 2 == 1
        if len(dist) != len(G):
            return "not connected"
        diam = max(diam, max(dist.values()))
    return len(G), girth, diam, bip


def components(G):
    seen, n = set(), 0
    for v in G:
        if v not in seen:
            n += 1
            todo = [v]
            seen.add(v)
            while todo:
                for w in G[todo.pop()]:
                    if w not in seen:
                        seen.add(w)
                        todo.append(w)
    return n


class NamedGraph(Case):
    """The library's own examples, also after being used by other parts."""

    def __init__(self, sim):
        self.name = sim.pick(sorted(NAMED))
        self.use = sim.choose(5)

    def describe(self):
        return "%s %d" % (self.name, self.use)

    def body(self, cx):
        X = cx.L.graph_examples
        G = getattr(X, self.name)
        check(shape(G) == NAMED[self.name], "%s: %r" % (self.name, shape(G)))
        yield
        order, girth, diam, bip = NAMED[self.name]
        if self.use == 0:
            check(cx.L.bipartite.is_bipartite(G) == bip, "bipartite")
        elif self.use == 1:
            check(cx.L.biconnectivity.is_biconnected(G), "biconnected")
        elif self.use == 2:
            M = cx.L.cardinality_matching.matching(G)
            check(len(M) == order, "perfect matching")
        elif self.use == 3:
            check(cx.L.graphdegeneracy.degeneracy(G) == 3, "degeneracy")
        elif order <= 20:
            n = 0
            for H in cx.L.cubic_ham.hamiltonian_cycles(G):
                n += 1
                if n % 5 == 0:
                    yield
                if n == 15:
                    break
            check((n == 0) == (self.name == "PetersenGraph"),
                  "%d Hamiltonian cycles" % n)
        yield
        check(shape(G) == NAMED[self.name], "%s was changed" % self.name)


class GraphFamilies(Case):
    """Parametrised families against their definitions."""

    def __init__(self, sim):
        self.kind = sim.choose(4)
        self.n = 3 + sim.choose(11)
        ks = [k for k in range(1, self.n) if 2 * k != self.n]
        self.k = sim.pick(ks)
        self.k2 = sim.pick(ks)
        self.d = 3 + sim.choose(3)
        # a valid code: a symmetric set of chords with a period
        self.lcf, self.rep = sim.pick([
            ([2], 4), ([3], 6), ([4], 8), ([3, -3], 4), ([5, -5], 7),
            ([2, -2], 2), ([7, -7], 8), ([2, 6, -2], 4), ([5, -5], 6),
            ([-5, -2, -4, 2, 5, -2, 2, 5, -2, -5, 4, 2], 1)])

    def describe(self):
        return "%d %d %d %d %d %r" % (self.kind, self.n, self.k, self.k2,
                                      self.d, self.lcf)

    def body(self, cx):
        X = cx.L.graph_examples
        n, k = self.n, self.k
        if self.kind == 0:
            G = X.GeneralizedPetersenGraph(n, k)
            edges = set()
            for i in range(n):
                edges |= {frozenset([(i, True), ((i + 1) % n, True)]),
                          frozenset([(i, True), (i, False)]),
                          frozenset([(i, False), ((i + k) % n, False)])}
            size = 2 * n
        elif self.kind == 1:
            a, b = self.k, self.k2
            G = X.GeneralizedCoxeterGraph(n, a, b)
            edges = set()
            for i in range(n):
                for r, step in ((1, 1), (2, a), (3, b)):
                    edges |= {frozenset([(i, 0), (i, r)]),
                              frozenset([(i, r), ((i + step) % n, r)])}
            size = 4 * n
        elif self.kind == 2:
            d = self.d
            G = X.CubeConnectedCycles(d)
            edges = set()
            for x in range(2 ** d):
                for y in range(d):
                    edges |= {frozenset([(x, y), (x, (y + 1) % d)]),
                              frozenset([(x, y), (x ^ 2 ** y, y)])}
            size = d * 2 ** d
        else:
            L, m = self.lcf, len(self.lcf) * self.rep
            G = X.LCFNotation(L, self.rep)
            edges = set()
            for i in range(m):
                edges |= {frozenset([i, (i + 1) % m]),
                          frozenset([i, (i + L[i % len(L)]) % m])}
            size = m
        yield
        got = {frozenset([v, w]) for v in G for w in G[v]}
        check(len(G) == size and got == edges, "edges of the graph")
        for v in G:
            check(all([v in G[w] for w in G[v]]), "edges at %r go one way"
                  % (v,))
            check(len(list(G[v])) == len(set(G[v])) == 3,
                  "neighbours of %r" % (v,))
        # what is handed out belongs to the caller
        scribble(G)
