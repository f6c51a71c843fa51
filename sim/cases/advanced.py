"""Reductions, media, automata, labelled paths and xyz graphs."""

from itertools import combinations, permutations, product

from ..engine import touch
from ..env import (add_edge, distances, freeze, how_many, namer, reach, rename,
                   reorder, represent, scribble, undirected)
from ..kernel import Violation
from ..scenario import Case, check, expect, wrong
from .search import GraphCase
from .structures import rejected
from .undirected import UndirectedCase, colourable, edge_set, larger_cubic


# -- Halin graphs and D3 reductions --------------------------------------------------------

def shrink_graph(adj, mode):
    """All graphs one reduction away.  mode: 'both', 'triangle', 'path'."""
    out = []
    deg3 = [v for v in adj if len(adj[v]) == 3]
    if mode != "path":
        for u, v, w in combinations(deg3, 3):
            if v in adj[u] and w in adj[v] and u in adj[w]:
                ext = [[x for x in adj[a] if x not in (u, v, w)]
                       for a in (u, v, w)]
                ext = [e[0] for e in ext]
                if len(set(ext)) == 3:
                    new = {x: set(adj[x]) - {u, v, w} for x in adj
                           if x not in (u, v, w)}
                    new[u] = set(ext)
                    for e in ext:
                        new[e].add(u)
                    out.append(new)
    if mode != "triangle":
        for v in deg3:
            for u, w in combinations(adj[v], 2):
                if len(adj[u]) == 3 and len(adj[w]) == 3 and \
                        w not in adj[u]:
                    common = set(adj[u]) & set(adj[v]) & set(adj[w])
                    if len(common) == 1:
                        new = {x: set(adj[x]) - {v} for x in adj if x != v}
                        new[u].add(w)
                        new[w].add(u)
                        out.append(new)
    return out


def is_k4(adj):
    return len(adj) == 4 and all([len(adj[v]) == 3 for v in adj])


def reducible(adj, mode="both"):
    """Can some order of reductions reach K4?"""
    seen = set()

    def key(g):
        return frozenset([frozenset((v, w)) for v in g for w in g[v]]
                         + [("v", v) for v in g])
    todo = [{v: set(adj[v]) for v in adj}]
    while todo:
        g = todo.pop()
        k = key(g)
        if k in seen:
            continue
        seen.add(k)
        if is_k4(g):
            return True
        if len(seen) > 300:
            return None
        todo += shrink_graph(g, mode)
    return False


def leaf_cycle(adj, leaves):
    """Is the graph a Halin graph with exactly these leaves?"""
    leaves = set(leaves)
    if len(leaves) < 3 or len(adj) < 4:
        return False
    nxt = {}
    for v in leaves:
        inner = [w for w in adj[v] if w in leaves]
        if len(inner) != 2 or len(adj[v]) != 3:
            return False
        nxt[v] = inner
    start = next(iter(leaves))
    cycle = [start]
    prev, cur = start, nxt[start][0]
    while cur != start:
        cycle.append(cur)
        a, b = nxt[cur]
        prev, cur = cur, (b if a == prev else a)
    if len(cycle) != len(leaves):
        return False
    tree = {v: [w for w in adj[v] if not (v in leaves and w in leaves)]
            for v in adj}
    if sum([len(tree[v]) for v in tree]) != 2 * (len(adj) - 1):
        return False
    if len(reach(tree, start)) != len(adj):
        return False
    for v in tree:
        if (v in leaves) != (len(tree[v]) == 1) or len(tree[v]) == 2:
            return False
    # planar: each tree edge cuts the cycle into two arcs
    for v in tree:
        for w in tree[v]:
            cut = {x: [y for y in tree[x] if {x, y} != {v, w}] for x in tree}
            side = reach(cut, v)
            inside = [x in side for x in cycle]
            changes = sum([inside[i] != inside[i - 1]
                           for i in range(len(cycle))])
            if changes != 2:
                return False
    return True


def halin(adj):
    """Is there a leaf cycle?  The number of edges tells its length."""
    k = sum([len(adj[v]) for v in adj]) // 2 - len(adj) + 1
    rank = {v: i for i, v in enumerate(adj) if len(adj[v]) == 3}
    if k < 3 or k > len(rank):
        return False
    for s in rank:
        paths = [(s,)]
        while paths:
            p = paths.pop()
            if len(p) == k:
                if s in adj[p[-1]] and leaf_cycle(adj, p):
                    return True
                continue
            for w in adj[p[-1]]:
                if rank.get(w, -1) > rank[s] and w not in p and \
                        not any([x in adj[w] for x in p[1:-1]]) and \
                        (len(p) in (1, k - 1) or s not in adj[w]):
                    paths.append(p + (w,))
    return False


def halin_adj(sim, top=0):
    """A random Halin graph."""
    big = sim.flag(1, 6)
    kids = {0: []}
    n = 1
    for _ in range(3 + sim.choose(2)):
        kids[0].append(n)
        kids[n] = []
        n += 1
    for _ in range(top // 3 or sim.choose(8 if big else 4)):
        if n > (top or (16 if big else 8)):
            break
        leaf = sim.pick([v for v in kids if not kids[v]])
        for _ in range(2 + sim.choose(2)):
            kids[leaf].append(n)
            kids[n] = []
            n += 1
    adj = {v: [] for v in kids}
    order = []

    def walk(v):
        if not kids[v]:
            order.append(v)
        for w in kids[v]:
            add_edge(adj, v, w)
            walk(w)
    walk(0)
    for a, b in zip(order, order[1:] + order[:1]):
        add_edge(adj, a, b)
    return adj


def expand(sim, adj, mode, n):
    """Undo a random reduction on a graph; vertex names are integers."""
    adj = {v: set(adj[v]) for v in adj}
    deg3 = [v for v in adj if len(adj[v]) == 3]
    if mode == "triangle" or mode == "both" and sim.flag():
        if not deg3:
            return adj
        x = sim.pick(deg3)
        out = sorted(adj[x])
        new = [x, n, n + 1]
        for v in out:
            adj[v].discard(x)
        for a in new:
            adj[a] = set(new) - {a}
        for a, v in zip(new, out):
            adj[a].add(v)
            adj[v].add(a)
    else:
        pairs = [(u, w, c) for u in deg3 for w in deg3 if u < w
                 and w in adj[u] for c in adj[u] & adj[w]]
        if not pairs:
            return adj
        u, w, c = sim.pick(sorted(pairs))
        adj[u].discard(w)
        adj[w].discard(u)
        adj[n] = {u, w, c}
        for a in (u, w, c):
            adj[a].add(n)
    return adj


def reducible_adj(sim, mode, steps=0):
    adj = {i: {j for j in range(4) if j != i} for i in range(4)}
    for _ in range(steps or sim.choose(10 if sim.flag(1, 6) else 4)):
        adj = expand(sim, adj, mode, max(adj) + 1)
    adj = {v: sorted(adj[v]) for v in adj}
    names = sorted(adj)
    return {names.index(v): [names.index(w) for w in adj[v]] for v in adj}


def wheel_adj(sim, top=8):
    n = 3 + sim.choose(top - 3)
    adj = {i: [] for i in range(n + 1)}
    for i in range(n):
        add_edge(adj, i, (i + 1) % n)
        add_edge(adj, i, n)
    return adj


def is_wheel(adj):
    for h in adj:
        rim = [v for v in adj if v != h]
        if len(rim) >= 3 and len(adj[h]) == len(rim) and \
                all([len(adj[v]) == 3 for v in rim]):
            cut = {v: [w for w in adj[v] if w != h] for v in rim}
            if len(reach(cut, rim[0])) == len(rim):
                return True
    return False


def perturbed(sim, adj):
    """Swap, add or drop an edge now and then."""
    adj = {v: list(adj[v]) for v in adj}
    for _ in range(sim.choose(3)):
        k = sim.choose(3)
        vs = sorted(adj)
        a, b = sim.pick(vs), sim.pick(vs)
        if k == 0 or k == 2:
            if adj[a]:
                c = sim.pick(adj[a])
                adj[a].remove(c)
                adj[c].remove(a)
        if k == 1 or k == 2:
            add_edge(adj, a, b)
    return adj


class Reduction(GraphCase):
    """Recognition of reducible graphs, with hooks of the caller."""

    def generate(self, sim):
        self.known = {}
        if sim.flag(1, 50):
            return self.large(sim)
        style = sim.choose(6)
        self.member = style != 4
        if style == 0:
            adj = halin_adj(sim)
        elif style == 1:
            adj = reducible_adj(sim, "both")
        elif style == 2:
            adj = reducible_adj(sim, "triangle")
        elif style == 3:
            adj = wheel_adj(sim)
        elif style == 4:
            return undirected(sim, 0, 7)
        else:
            adj = reducible_adj(sim, "path")
        if sim.flag():
            adj = perturbed(sim, adj)
            self.member = False
        return adj

    def large(self, sim):
        """Graphs of many vertices whose nature is known by construction."""
        style = sim.choose(4)
        self.member = True
        if style == 0:
            self.known = {"halin": True, "dual": None, "wheel": False}
            adj = halin_adj(sim, 60)
        elif style == 3:
            adj = wheel_adj(sim, 60)
            self.known = {"halin": True, "dual": len(adj) == 4}
        else:
            self.known = {"halin": None, "dual": None}
            mode = "triangle" if style == 2 else "both"
            if style == 2:
                self.known["dual"] = True
            adj = reducible_adj(sim, mode, 24)
        return adj

    def draw(self, sim):
        self.vetoes = [sim.choose(4) == 3 for _ in range(8)] \
            if sim.flag() else []
        self.bad = sim.flag(1, 12) and len(self.adj) > 1
        if self.bad:
            a = self.verts[0]
            adj = {v: list(self.adj[v]) for v in self.adj}
            if adj[a]:
                b = adj[a][0]
                adj[b] = [x for x in adj[b] if x != a]
            else:
                adj[a].append(self.verts[1])
            self.adj = adj
            self.G = represent(sim, adj)
        self.hooked = sim.flag(1, 3)
        if not self.bad:
            known = self.known
            self.want = {
                "d3": self.member or reducible(self.adj),
                "dual": known["dual"] if "dual" in known
                else reducible(self.adj, "triangle"),
                "halin": known["halin"] if "halin" in known
                else halin(self.adj),
                "wheel": is_wheel(self.adj)}

    def hooks(self, cx, tally):
        def thook(G, u, v, w, a, b, c, x):
            touch("triangle hook")
            tally.append(3)
            check(all([p in G for p in (u, v, w, a, b, c)]) and x not in G,
                  "triangle hook sees unknown vertices")
            check(len({u, v, w, a, b, c}) == 6, "triangle hook arguments")
            check(w in G[u] and v in G[u] and w in G[v] and a in G[u]
                  and b in G[v] and c in G[w], "triangle hook arguments")
            return True

        def phook(G, u, v, w, x):
            touch("path hook")
            tally.append(1)
            check(all([p in G for p in (u, v, w, x)]), "path hook arguments")
            check(v in G[u] and v in G[w] and w not in G[u] and
                  all([x in G[p] for p in (u, v, w)]), "path hook arguments")
            return True
        return [thook], [phook]

    def vetoing(self, cx, model, done):
        """Hooks that refuse now and then, and follow what happens."""
        vetoes = iter(self.vetoes)
        asked = []

        def same(G):
            check({v: set(G[v]) for v in G} == model,
                  "graph seen by a hook: %r, not %r" % (G, model))

        def first(G, *args):
            touch("first hook")
            same(G)
            check(not asked, "a hook was left out")
            if next(vetoes, False):
                return False
            asked.append(args)
            return True

        def thook(G, u, v, w, a, b, c, x):
            touch("last triangle hook")
            same(G)
            check(asked == [(u, v, w, a, b, c, x)], "hooks disagree")
            asked.clear()
            if next(vetoes, False):
                return False
            done.append((u, v, w, a, b, c, x))
            for p in (u, v, w):
                del model[p]
            model[x] = {a, b, c}
            for p, q in ((u, a), (v, b), (w, c)):
                model[q].remove(p)
                model[q].add(x)
            return True

        def phook(G, u, v, w, x):
            touch("last path hook")
            same(G)
            check(asked == [(u, v, w, x)], "hooks disagree")
            asked.clear()
            if next(vetoes, False):
                return False
            done.append((u, v, w, x))
            del model[v]
            for p in (u, w, x):
                model[p].remove(v)
            model[u].add(w)
            model[w].add(u)
            return True

        def final(G):
            touch("finalizer")
            same(G)
            return "final", len(G)
        return [first, thook], [first, phook], final

    def follow(self, cx):
        """Reductions that are vetoed are not made; the others are undone in
        reverse order."""
        H = cx.L.halin
        model = {v: set(self.adj[v]) for v in self.adj}
        done = []
        T, P, final = self.vetoing(cx, model, done)
        got = H.is_D3_reducible(self.G, T, P, final)
        check(got == ("final", len(model)), "value of the finalizer: %r"
              % (got,))
        yield
        model = {v: set(self.adj[v]) for v in self.adj}
        done = []
        undone = []
        T, P, final = self.vetoing(cx, model, done)

        def recognize(G, triangles, paths, finalize):
            def end(K):
                final(K)
                return finalize(K)
            return H.is_D3_reducible(G, T + triangles, P + paths, end)

        def begin(K):
            touch("initializer")
            check(not undone, "initializer is called late")

        def undo(G, *args):
            touch("undoing")
            undone.append(args)
        H.reconstruct_D3(self.G, begin, undo, undo, recognize)
        check(undone == done[::-1], "undone %r after %r" % (undone, done))

    def body(self, cx):
        H = cx.L.halin
        if not self.bad and self.vetoes:
            yield from self.follow(cx)
        if self.bad:
            for f in (H.is_D3_reducible, H.is_halin, H.is_wheel,
                      H.is_dual_3_tree):
                expect(TypeError, lambda: f(self.G), "directed graph")
                yield
            return
        for name, f in (("d3", H.is_D3_reducible), ("halin", H.is_halin),
                        ("dual", H.is_dual_3_tree), ("wheel", H.is_wheel)):
            want = self.want[name]
            if self.hooked:
                tally = []
                t, p = self.hooks(cx, tally)
                mine = list(t), list(p)
                got = f(self.G, t, p)
                check((t, p) == mine, "lists of hooks were modified")
                check(name != "dual" or 1 not in tally,
                      "path of a dual 3-tree")
            else:
                got = f(self.G)
            if want is not None:
                check(bool(got) == want, "%s: %r, not %r"
                      % (name, got, want))
            yield
        if self.want["halin"]:
            L = H.halin_leaf_vertices(self.G)
            check(leaf_cycle(self.adj, L), "leaf vertices %r" % (L,))
            scribble(L)
        elif self.want["halin"] is False:
            expect(TypeError, lambda: H.halin_leaf_vertices(self.G),
                   "not a Halin graph")
        yield
        if self.want["d3"]:
            ham = H.hamiltonian_cycle_D3(self.G)
            check(set(ham) == set(self.verts), "cycle misses vertices")
            for v in ham:
                check(len(ham[v]) == 2 and
                      all([w in self.adj[v] and v in ham[w]
                           for w in ham[v]]), "cycle at %r" % (v,))
            check(len(reach(ham, self.verts[0])) == len(ham),
                  "not a single cycle")
            scribble(ham)
        elif self.want["d3"] is False:
            expect(TypeError, lambda: H.hamiltonian_cycle_D3(self.G),
                   "not reducible")


# -- partial cubes and media -----------------------------------------------------------------

def is_partial_cube(adj):
    """Bipartite, connected, and the edge relation is transitive."""
    if not adj:
        return False
    vs = list(adj)
    if len(reach(adj, vs[0])) != len(vs) or not colourable(adj):
        return False
    d = {v: distances(adj, v) for v in vs}
    edges = [tuple(e) for e in edge_set(adj)]

    def theta(e, f):
        (x, y), (u, v) = e, f
        return d[x][u] + d[y][v] != d[x][v] + d[y][u]
    cls = {}
    reps = []
    for e in edges:
        mine = frozenset([f for f in edges if theta(e, f)])
        cls[e] = mine
    for e in edges:
        for f in cls[e]:
            if cls[f] != cls[e]:
                return False
    return True


def cube_adj(sim):
    """Mostly partial cubes."""
    if sim.flag(1, 40):
        return large_cube(sim)
    style = sim.choose(8)
    if style == 6:                  # grown in a hypercube, mostly isometric
        d = 2 + sim.choose(4)
        pts = [0]
        for _ in range(sim.choose(22 if sim.flag(1, 6) else 10)):
            x = sim.pick(pts) ^ 1 << sim.choose(d)
            if x not in pts:
                pts.append(x)
        return {i: [j for j, y in enumerate(pts) if (x ^ y) and
                    (x ^ y) & ((x ^ y) - 1) == 0]
                for i, x in enumerate(pts)}
    if style == 7:                  # a tree with even cycles hung on it
        adj = {0: []}
        for _ in range(1 + sim.choose(4)):
            a = sim.choose(len(adj))
            n = len(adj)
            k = sim.pick((1, 3, 5))
            for i in range(n, n + k):
                adj[i] = []
                add_edge(adj, i, a if i == n else i - 1)
            if k > 1:
                add_edge(adj, n + k - 1, a)
        return adj
    if style == 0:                  # tree
        n = 1 + sim.choose(10)
        adj = {i: [] for i in range(n)}
        for i in range(1, n):
            add_edge(adj, i, sim.choose(i))
        return adj
    if style == 1:                  # even cycle
        n = 4 + 2 * sim.choose(3)
        adj = {i: [] for i in range(n)}
        for i in range(n):
            add_edge(adj, i, (i + 1) % n)
        return adj
    if style == 2:                  # grid
        a, b = 1 + sim.choose(4), 1 + sim.choose(3)
        adj = {i: [] for i in range(a * b)}
        for i in range(a):
            for j in range(b):
                if i:
                    add_edge(adj, i * b + j, (i - 1) * b + j)
                if j:
                    add_edge(adj, i * b + j, i * b + j - 1)
        return adj
    if style == 3:                  # part of a hypercube
        d = 1 + sim.choose(3)
        pts = [x for x in range(1 << d) if not sim.flag(1, 6)] or [0]
        adj = {i: [] for i in range(len(pts))}
        for i, x in enumerate(pts):
            for j in range(i):
                if (x ^ pts[j]) & ((x ^ pts[j]) - 1) == 0:
                    add_edge(adj, i, j)
        return adj
    if style == 4:                  # linear orders: the permutohedron
        perms = list(permutations(range(3)))
        adj = {i: [] for i in range(6)}
        for i, p in enumerate(perms):
            for j, q in enumerate(perms):
                if sum([a != b for a, b in zip(p, q)]) == 2 and \
                        any([p[k] == q[k + 1] and p[k + 1] == q[k]
                             for k in range(2)]):
                    add_edge(adj, i, j)
        return adj
    return undirected(sim, 0, 8)


def large_cube(sim):
    """A product of paths, cycles or edges, or a large tree."""
    if sim.flag(1, 3):
        n = sim.between(12, 36)
        adj = {i: [] for i in range(n)}
        back = sim.pick((1, 2, n))
        for i in range(1, n):
            add_edge(adj, i, max(0, i - 1 - sim.choose(back)))
        return adj
    sides = sim.pick(((2, 2, 2, 2), (2, 2, 2, 2, 2), (2, 2, -6), (5, 6),
                      (-8, 4), (-30,), (-4, -6), (3, 3, 3), (2, 18)))
    pts = list(product(*[range(abs(k)) for k in sides]))
    place = {p: i for i, p in enumerate(pts)}
    adj = {i: [] for i in range(len(pts))}
    for p in pts:
        for d, k in enumerate(sides):
            q = p[:d] + ((p[d] + 1) % abs(k),) + p[d + 1:]
            if k < 0 or p[d] + 1 < k:
                add_edge(adj, place[p], place[q])
    return adj


class PartialCube(GraphCase):
    budget = 2500000

    def generate(self, sim):
        adj = cube_adj(sim)
        if sim.flag(1, 4) and len(adj) > 2:
            adj = perturbed(sim, adj)
        return adj

    def draw(self, sim):
        self.bad = sim.flag(1, 12) and len(self.adj) > 1
        if self.bad:
            a, b = self.verts[:2]
            adj = {v: list(self.adj[v]) for v in self.adj}
            if b in adj[a]:
                adj[b].remove(a)
            else:
                adj[a].append(b)
            self.adj = adj
            self.G = represent(sim, adj)
        self.want = not self.bad and is_partial_cube(self.adj)

    def body(self, cx):
        P = cx.L.partial_cube
        got = P.isPartialCube(self.G)
        check(got == self.want, "isPartialCube is %r" % (got,))
        yield
        Err = cx.L.medium.MediumError
        if not self.want:
            for f in (P.PartialCubeLabeling, P.MediumForPartialCube):
                expect(Err, lambda: f(self.G), "not a partial cube")
            return
        lab = P.PartialCubeLabeling(self.G)
        check(set(lab) == set(self.verts), "labels for wrong vertices")
        dist = {v: distances(self.adj, v) for v in self.verts}
        for v in self.verts:
            for w in self.verts:
                check(bin(lab[v] ^ lab[w]).count("1") == dist[v][w],
                      "labels of %r and %r differ in the wrong number of "
                      "places" % (v, w))
        yield
        M = P.MediumForPartialCube(self.G)
        yield
        check_medium(M, self.adj, dist)
        yield
        yield from routes(cx, M, dist)
        X = cx.L.medium.ExplicitMedium(M)
        check_medium(X, self.adj, dist)
        yield
        emb = cx.L.medium.HypercubeEmbedding(X)
        for v in self.verts:
            for w in self.verts:
                check(bin(emb[v] ^ emb[w]).count("1") == dist[v][w],
                      "embedding is not isometric")
        scribble(lab, emb)


def check_medium(M, adj, dist):
    """States, tokens and actions agree with the graph."""
    states = list(M)
    check(len(M) == len(adj) and len(states) == len(adj) and
          set(states) == set(adj), "states %r" % (states,))
    tokens = list(M.tokens())
    check(len(set(tokens)) == len(tokens), "a token is listed twice")
    for t in tokens:
        r = M.reverse(t)
        check(M.reverse(r) == t and r in tokens, "reverse of %r" % (t,))
    for S in states:
        row = M[S]
        check(set(row) == set(tokens), "row of %r" % (S,))
        eff = {}
        for t in tokens:
            V = M(S, t)
            check(V == row[t], "action of %r on %r" % (t, S))
            if V != S:
                check(V not in eff.values(), "two tokens lead from %r to %r"
                      % (S, V))
                eff[t] = V
                check(M(V, M.reverse(t)) == S, "reverse action")
        check(set(eff.values()) == set(adj[S]), "neighbours of %r" % (S,))


def routes(cx, M, dist):
    R = cx.L.medium.RoutingTable(M)
    yield
    for a in dist:
        for b in dist:
            if a == b:
                continue
            S = a
            steps = 0
            used = set()
            while S != b:
                check((S, b) in R, "no route from %r to %r" % (S, b))
                t = R[S, b]
                check(t not in used and M.reverse(t) not in used,
                      "route repeats a token or its reverse")
                used.add(t)
                S = M(S, t)
                steps += 1
                check(steps <= dist[a][b], "route from %r to %r is too long"
                      % (a, b))


class Bitvectors(Case):
    """A medium of bit vectors; tables are built from it."""

    budget = 2500000

    def __init__(self, sim):
        self.d = sim.choose(5)
        if sim.flag(1, 60):
            self.d = 6
        # a downward closed family is always a medium
        tops = [sim.choose(1 << self.d) for _ in range(1 + sim.choose(3))]
        flip = sim.choose(1 << self.d)
        self.states = sorted([x ^ flip for x in range(1 << self.d)
                              if any([x & ~t == 0 for t in tops])])
        self.states = sim.shuffled(self.states)[:]
        self.kind = sim.pick((list, set, frozenset))
        self.adj = {x: [y for y in self.states
                        if bin(x ^ y).count("1") == 1] for x in self.states}

    def describe(self):
        return "%d %r" % (self.d, self.states)

    def fingerprint(self):
        return freeze(self.states)

    def body(self, cx):
        D = cx.L.medium
        given = self.kind(self.states)
        M = D.BitvectorMedium(given, self.d)
        scribble(given)
        dist = {v: distances(self.adj, v) for v in self.adj}
        states = list(M)
        check(sorted(states) == sorted(self.states) and
              len(M) == len(self.states), "states")
        for x in states:
            for t in M.tokens():
                i, b = t
                y = x | 1 << i if b else x & ~(1 << i)
                check(M(x, t) == (y if y in self.adj else x),
                      "action of %r on %d" % (t, x))
                check(M.reverse(t) == (i, not b), "reverse")
        yield
        G = D.StateTransitionGraph(M)
        check({v: set(G[v]) for v in G} ==
              {v: set(self.adj[v]) for v in self.adj}, "transition graph")
        for v in G:
            for w in G[v]:
                check(M(v, G[v][w]) == w, "label of %d-%d" % (v, w))
        yield
        N = D.LabeledGraphMedium(G)
        check_medium(N, self.adj, dist)
        yield
        check_medium(D.ExplicitMedium(N), self.adj, dist)
        yield from routes(cx, M, dist)
        yield from self.own(cx, dist)

    def own(self, cx, dist):
        """A medium defined by the caller: subsets, with tokens +i and -i."""
        D = cx.L.medium
        d = self.d
        sets = {x: frozenset([i for i in range(1, d + 1) if x >> i - 1 & 1])
                for x in self.states}

        class Subsets(D.Medium):
            def states(self):
                touch("states")
                return iter(list(sets.values()))

            def tokens(self):
                touch("tokens")
                return iter([s * i for i in range(1, d + 1) for s in (1, -1)])

            def reverse(self, t):
                touch("reverse")
                return -t

            def action(self, S, t):
                touch("action")
                V = S | {t} if t > 0 else S - {-t}
                return V if V in known else S
        known = set(sets.values())
        M = Subsets()
        adj = {sets[x]: [sets[y] for y in self.adj[x]] for x in self.adj}
        far = {sets[x]: {sets[y]: dist[x][y] for y in dist[x]} for x in dist}
        check_medium(M, adj, far)
        yield
        yield from routes(cx, M, far)
        check_medium(D.ExplicitMedium(M), adj, far)
        yield
        emb = D.HypercubeEmbedding(M)
        check(all([bin(emb[a] ^ emb[b]).count("1") == far[a][b]
                   for a in far for b in far]), "embedding of the caller's "
              "medium")

        class Toggles(Subsets):
            def action(self, S, t):
                V = S ^ {abs(t)}
                return V if V in known else S
        M = Toggles()
        for f in (D.StateTransitionGraph, D.RoutingTable):
            yield
            if len(known) > 1:
                expect(D.MediumError, lambda: f(M),
                       "tokens and their reverses act alike")


def consistent(G):
    """Do tokens act on each state in one way and have one reverse each?"""
    rev = {}
    for v in G:
        if len(set(G[v].values())) != len(G[v]):
            return False
        for w in G[v]:
            if v not in G[w]:
                return False
            t, r = G[v][w], G[w][v]
            if rev.setdefault(t, r) != r or rev.setdefault(r, t) != t:
                return False
    return True


class BadMedium(Case):
    """Labelled graphs with inconsistent tokens must be refused."""

    def __init__(self, sim):
        if sim.flag():
            n = 1 + sim.choose(5)
            names = namer(sim, n)
            k = 1 + sim.choose(4)
            G = {v: {} for v in names}
            for i, v in enumerate(names):
                for w in names[:i]:
                    if sim.flag():
                        t = 1 + sim.choose(k)
                        G[v][w] = t
                        G[w][v] = t if sim.flag(1, 12) else -t
            self.G = G
            return
        names = namer(sim, 4)
        a, b, c, d = names
        kind = sim.choose(4)
        G = {a: {b: "x", c: "y"}, b: {a: "X", d: "y"},
             c: {a: "Y", d: "x"}, d: {c: "X", b: "Y"}}
        if kind == 0:
            G[a][c] = "x"
            G[c][a] = "X"
        elif kind == 1:
            G[d][c] = "Z"
        elif kind == 2:
            del G[d][c]
        else:
            G[c][d] = "z"
        self.G = G

    def describe(self):
        return repr(self.G)

    def fingerprint(self):
        return freeze(self.G)

    def body(self, cx):
        D = cx.L.medium
        if not consistent(self.G):
            expect(D.MediumError, lambda: D.LabeledGraphMedium(self.G),
                   "inconsistent labels")
            return
        M = D.LabeledGraphMedium(self.G)
        yield
        check(set(M) == set(self.G) and len(M) == len(self.G), "states")
        tokens = {t for v in self.G for t in self.G[v].values()}
        check(set(M.tokens()) == tokens, "tokens")
        for v in self.G:
            back = {t: w for w, t in self.G[v].items()}
            for t in tokens:
                check(M(v, t) == back.get(t, v), "action of %r on %r"
                      % (t, v))
            for w in self.G[v]:
                check(M.reverse(self.G[v][w]) == self.G[w][v], "reverse")


# -- paths without repeated labels ---------------------------------------------------------------

class Nonrepetitive(Case):
    def __init__(self, sim):
        k = how_many(sim, 1, 7, 14)
        labs = namer(sim, k)
        many = sim.flag(1, 4) if k > 7 else False
        n = 1 + sim.choose(3 if many else 6)
        names = namer(sim, n)
        G = {v: {} for v in names}
        for v in names:
            for w in names:
                if sim.flag(1, 3):
                    ls = [x for x in labs if many or sim.flag(1, 3)]
                    if ls:
                        G[v][w] = ls if sim.flag() else set(ls)
        if sim.flag(1, 3):
            # vertices that are only the ends of edges
            ends = {w for v in G for w in G[v]}
            for v in names:
                if v in ends and not G[v]:
                    del G[v]
        self.G = G
        self.labs = labs
        self.names = names
        self.pairs = [(sim.pick(names), sim.pick(labs), sim.pick(names),
                       sim.pick(labs)) for _ in range(3)]

    def describe(self):
        return repr(self.G)

    def fingerprint(self):
        return freeze(self.G)

    def edges(self):
        return [(v, w, x) for v in self.G for w in self.G[v]
                for x in self.G[v][w]]

    def search(self, v, lab):
        """Edges that can end a path starting at v with the label: length."""
        E = self.edges()
        todo = [e for e in E if e[0] == v and e[2] == lab]
        far = {e: 1 for e in todo}
        for e in todo:
            for f in E:
                if f[0] == e[1] and f[2] != e[2] and f not in far:
                    far[f] = far[e] + 1
                    todo.append(f)
        return far

    def body(self, cx):
        N = cx.L.repetitivity.NonrepetitiveGraph(self.G)
        check(set(N) == set(self.names), "vertices")
        E = self.edges()
        for v in self.names:
            check(set(N[v]) == {x for a, b, x in E if v in (a, b)},
                  "labels at %r" % (v,))
        yield
        got = []
        for t in N.cyclic():
            got.append(t)
            if len(got) % 4 == 0:
                yield
        nxt = {e: [f for f in E if f[0] == e[1] and f[2] != e[2]] for e in E}
        want = {e for e in E if any([e in reach(nxt, f) for f in nxt[e]])}
        check(set(got) == want and len(got) == len(want),
              "edges on cycles: %r, not %r" % (got, want))
        for v, a, w, b in self.pairs:
            far = self.search(v, a)
            got = []
            for p in N.reachable(v, a):
                got.append(p)
            check(set(got) == {(e[1], e[2]) for e in far} and
                  len(set(got)) == len(got),
                  "reachable from %r by %r: %r" % (v, a, got))
            yield
            lens = [far[e] for e in far if e[1] == w and e[2] == b]
            check(v in N and ("absent", a) not in N, "membership")
            if a not in N[v]:
                expect((KeyError, ValueError),
                       lambda: N.shortest(v, a, w, b), "no such label")
                continue
            if not lens:
                expect(ValueError, lambda: N.shortest(v, a, w, b),
                       "no path")
                continue
            path = N.shortest(v, a, w, b)
            check(len(path) == min(lens) + 1 and path[0] == v and
                  path[-1] == w, "shortest path %r, length %d expected"
                  % (path, min(lens)))
            check(self.walk(path, a, b), "no labelling of path %r"
                  % (path,))
            scribble(path)
            yield

    def walk(self, path, a, b):
        labels = {a}
        for i in range(len(path) - 1):
            here = set(self.G[path[i]].get(path[i + 1], ()))
            if i == 0:
                labels = here & {a}
            else:
                labels = {x for x in here if any([y != x for y in labels])}
            if not labels:
                return False
        return b in labels


# -- xyz graphs ---------------------------------------------------------------------------------

def cubic3(sim):
    """Cubic graphs, mostly biconnected."""
    style = sim.choose(6)
    if sim.flag(1, 20):
        return bipartite_cubic(sim)
    if style == 0:
        edges = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7),
                 (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
        n = 8
    elif style == 1:
        n = 4
        edges = list(combinations(range(4), 2))
    elif style == 2:
        k = 3 + sim.choose(2)               # prism
        n = 2 * k
        edges = [(i, (i + 1) % k) for i in range(k)] + \
            [(k + i, k + (i + 1) % k) for i in range(k)] + \
            [(i, k + i) for i in range(k)]
    elif style == 3:
        n = 6
        edges = [(i, 3 + j) for i in range(3) for j in range(3)]
    elif style == 4 and sim.flag(1, 3):
        adj = larger_cubic(sim)
        if len(adj) <= 12 and all([len(adj[v]) == 3 for v in adj]):
            return adj
        return cubic3_plain()
    else:
        n = sim.pick((6, 8)) if style == 4 else sim.pick((10, 12))
        edges = [(i, (i + 1) % n) for i in range(n)]
        rest = list(range(n))
        while rest:
            a = rest.pop(0)
            ok = [b for b in rest if (b - a) % n not in (1, n - 1)]
            if not ok:
                return cubic3_plain()
            b = ok[sim.choose(len(ok))]
            rest.remove(b)
            edges.append((a, b))
    adj = {i: [] for i in range(n)}
    for a, b in edges:
        add_edge(adj, a, b)
    return adj


def bipartite_cubic(sim):
    """Three random perfect matchings, or a prism."""
    h = 4 + sim.choose(5)
    if sim.flag(1, 4):          # two cubes or the like, joined by two edges
        edges = []
        ends = []
        for _ in range(2):
            k = 3 + sim.choose(2)
            part = [(i, (i + 1) % k) for i in range(k)] + \
                [(k + i, k + (i + 1) % k) for i in range(k)] + \
                [(i, k + i) for i in range(k)]
            if k == 3 and sim.flag():
                part = [(i, 3 + j) for i in range(3) for j in range(3)]
            ends.append(part.pop(sim.choose(len(part))))
            edges.append(part)
        n = [2 * (len(part) + 1) // 3 for part in edges]
        adj = {i: [] for i in range(sum(n))}
        for base, part in zip((0, n[0]), edges):
            for a, b in part:
                add_edge(adj, base + a, base + b)
        for a, b in zip(*ends):
            add_edge(adj, a, n[0] + b)
        return adj
    adj = {i: [] for i in range(2 * h)}
    if sim.flag(1, 4):
        for i in range(h):
            add_edge(adj, i, (i + 1) % h)
            add_edge(adj, h + i, h + (i + 1) % h)
            add_edge(adj, i, h + i)
        return adj
    for d in range(h):
        add_edge(adj, d, h + d)
        add_edge(adj, d, h + (d + 1) % h)
    ends = sim.shuffled(list(range(h)))
    for d, e in enumerate(ends):
        if h + e in adj[d]:     # exchange with one that suits both
            ok = [k for k in range(h) if h + e not in adj[k]
                  and h + ends[k] not in adj[d]]
            if not ok:
                return cubic3_plain()
            k = ok[0]
            ends[d], ends[k] = ends[k], ends[d]
    if any([h + e in adj[d] for d, e in enumerate(ends)]):
        return cubic3_plain()
    for d, e in enumerate(ends):
        add_edge(adj, d, h + e)
    return adj


def cubic3_plain():
    adj = {i: [] for i in range(4)}
    for a, b in combinations(range(4), 2):
        add_edge(adj, a, b)
    return adj


def colourings(adj):
    """Proper 3-edge-colourings up to renaming colours, as partitions."""
    edges = []
    order = []
    for r in adj:
        order += [v for v in distances(adj, r) if v not in order]
    for i, v in enumerate(order):
        edges += [(v, w) for w in adj[v] if w in order[:i]]
    out = set()
    cur = {}

    def go(i):
        if i == len(edges):
            out.add(frozenset([frozenset([frozenset(e) for e in cur
                                          if cur[e] == c])
                               for c in range(3)]))
            return
        a, b = edges[i]
        used = {cur[e] for e in cur if a in e or b in e}
        for c in range(min(3, 2 + max(cur.values(), default=-1))):
            if c not in used:
                cur[edges[i]] = c
                go(i + 1)
                del cur[edges[i]]
    go(0)
    return out


def biconnected(adj):
    if not adj:
        return True
    for x in adj:
        rest = {v: [w for w in adj[v] if w != x] for v in adj if v != x}
        if len(reach(rest, next(iter(rest)))) != len(rest):
            return False
    return True


class XyzGraph(GraphCase):
    budget = 3000000

    def generate(self, sim):
        adj = cubic3(sim)
        self.bad = sim.flag(1, 10)
        if self.bad:
            k = sim.choose(2)
            a = sim.choose(len(adj))
            b = adj[a][0]
            adj[a].remove(b)
            if k:
                adj[b].remove(a)
        return adj

    def draw(self, sim):
        self.keep = sim.flag()
        self.whole = not self.bad and biconnected(self.adj)
        self.want = colourings(self.adj) if self.whole else ()
        self.points = [tuple([sim.choose(3) for _ in range(3)])
                       for _ in range(sim.choose(9))]
        if sim.flag(1, 3):
            a, b, c = [(sim.choose(3), 3 + sim.choose(3)) for _ in range(3)]
            self.points = [(x, y, z) for x in a for y in b for z in c]
            if sim.flag(1, 4):
                self.points.pop(sim.choose(8))

    def body(self, cx):
        X = cx.L.xyz_graph
        rows = {}
        for p in set(self.points):
            for i in range(3):
                key = i, p[:i] + p[i + 1:]
                rows[key] = rows.get(key, 0) + 1
        got = X.isxyz(list(set(self.points)))
        check(bool(got) == all([k == 2 for k in rows.values()]),
              "isxyz(%r): %r" % (self.points, got))
        yield
        if self.bad:
            expect(ValueError, lambda: next(X.CubicMatchPartitions(self.G)),
                   "not cubic")
            expect(ValueError, lambda: list(X.xyzEmbeddings(self.G)),
                   "not cubic")
            return
        if not self.whole:
            for f in (X.CubicMatchPartitions, X.xyzEmbeddings):
                expect(cx.L.biconnectivity.NotBiconnected,
                       lambda: list(f(self.G)), "not biconnected")
            return
        want = self.want
        got = set()
        kept = []
        for P in X.CubicMatchPartitions(self.G):
            check(set(P) == set(self.adj), "vertices of a partition")
            for v in P:
                check(sorted(map(repr, P[v])) ==
                      sorted(map(repr, self.adj[v])), "row of %r" % (v,))
            part = frozenset([frozenset([frozenset((v, P[v][c])) for v in P])
                              for c in range(3)])
            check(part in want, "not three matchings")
            check(part not in got, "partition is listed twice")
            got.add(part)
            if self.keep:
                kept.append((P, {v: list(P[v]) for v in P}))
            else:
                scribble(P)
            yield
        for P, was in kept:
            check({v: list(P[v]) for v in P} == was,
                  "a partition changed after it was delivered")
        check(got == want, "%d of %d partitions" % (len(got), len(want)))
        n = 0
        for D in X.xyzEmbeddings(self.G):
            check(set(D) == set(self.adj), "vertices of an embedding")
            for v in D:
                for w in D:
                    if v != w:
                        same = sum([a == b for a, b in zip(D[v], D[w])])
                        check((same == 2) == (w in self.adj[v]),
                              "embedding %r" % (D,))
            check(len({tuple(D[v]) for v in D}) == len(D),
                  "two vertices at one point")
            scribble(D)
            n += 1
            yield
        check(n == len([c for c in want if self.embeds(c)]),
              "%d embeddings" % n)

    def embeds(self, part):
        """Do the two-coloured cycles give distinct coordinates?"""
        mats = list(part)
        coords = {v: [] for v in self.adj}
        for i, j in ((0, 1), (0, 2), (1, 2)):
            es = mats[i] | mats[j]
            g = {v: [w for w in self.adj[v] if frozenset((v, w)) in es]
                 for v in self.adj}
            for v in self.adj:
                coords[v].append(frozenset(reach(g, v)))
        vs = list(self.adj)
        for i, j in ((0, 1), (0, 2), (1, 2)):
            seen = {}
            for v in vs:
                k = coords[v][i], coords[v][j]
                seen[k] = seen.get(k, 0) + 1
            if any([c != 2 for c in seen.values()]):
                return False
        return True
