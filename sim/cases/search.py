"""Depth-first and breadth-first search, strong components, DAGs, 2-SAT."""

from ..env import (Adj, GraphProxy, dag, digraph, distances, freeze, fresh,
                   how_many, namer, reach, rename, reorder, represent,
                   scribble, undirected)
from ..engine import touch
from ..scenario import Case, check, expect, wrong


class GraphCase(Case):
    """A directed graph handed over in some representation."""

    nmax = 9
    big = 22
    huge = 300
    loops = True

    def __init__(self, sim):
        adj = self.generate(sim)
        names = namer(sim, len(adj))
        self.adj = reorder(sim, rename(adj, names))
        self.G = represent(sim, self.adj)
        self.verts = list(self.adj)
        self.draw(sim)

    def generate(self, sim):
        return digraph(sim, self.nmax, self.loops, self.big, self.huge)

    def draw(self, sim):
        pass

    def fingerprint(self):
        return freeze(self.G)

    def describe(self):
        return "%s %r" % (type(self.G).__name__, self.adj)


def follows_dfs(adj, order):
    """Is order a depth-first preorder of the part it covers?"""
    seen = set()
    stack = []
    for w in order:
        if w in seen:
            return False
        while stack and all([x in seen for x in adj[stack[-1]]]):
            stack.pop()
        if stack and w not in adj[stack[-1]]:
            return False
        seen.add(w)
        stack.append(w)
    return True


class DfsSearch(GraphCase):
    """The stream of classified edges, consumed one at a time."""

    def draw(self, sim):
        self.root = None
        if self.verts and sim.flag(1, 2):
            self.root = (sim.pick(self.verts),)

    def stream(self, cx):
        D = cx.L.dfs
        if self.root is None:
            return D.search(self.G)
        return D.search(self.G, self.root[0])

    def body(self, cx):
        D = cx.L.dfs
        fw, bw, nt = D.forward, D.reverse, D.nontree
        stack, visited, todo = [], set(), {}
        roots = 0
        for v, w, kind in self.stream(cx):
            if kind == fw:
                if not stack:
                    check(v == w and w not in visited, "bad root %r" % (w,))
                    if self.root is not None:
                        check(v == self.root[0], "search began elsewhere")
                    roots += 1
                else:
                    check(stack[-1] == v and w not in visited,
                          "forward edge %r->%r out of place" % (v, w))
                    check(w in todo[v], "edge %r->%r repeated" % (v, w))
                    todo[v].remove(w)
                visited.add(w)
                stack.append(w)
                todo[w] = list(self.adj[w])
            elif kind == nt:
                check(stack and stack[-1] == v, "nontree edge out of place")
                check(w in visited, "nontree edge to unseen vertex")
                check(w in todo[v], "edge %r->%r repeated" % (v, w))
                todo[v].remove(w)
            elif kind == bw:
                check(stack and stack[-1] == w, "return out of place")
                check(not todo[w], "left %r before all its edges" % (w,))
                stack.pop()
                check(v == (stack[-1] if stack else w), "return to wrong place")
            else:
                wrong("unknown kind of edge %r" % (kind,))
            yield
        check(not stack, "search ended inside a tree")
        if self.root is None:
            check(visited == set(self.verts), "vertices missed by search")
        else:
            check(visited == reach(self.adj, self.root[0]),
                  "search covered the wrong vertices")
            check(roots == 1, "number of roots")


class DfsOrders(GraphCase):
    """Preorder and postorder streams side by side, plus reachability."""

    def draw(self, sim):
        self.root = None
        if self.verts and sim.flag(1, 2):
            self.root = (sim.pick(self.verts),)
        self.pairs = [(sim.pick(self.verts), sim.pick(self.verts))
                      for _ in range(3)] if self.verts else []
        self.turns = [sim.choose(2) for _ in range(8)]

    def body(self, cx):
        D = cx.L.dfs
        args = (self.G,) if self.root is None else (self.G, self.root[0])
        its = [D.preorder(*args), D.postorder(*args)]
        outs = [[], []]
        live = [0, 1]
        i = 0
        while live:
            k = live[self.turns[i % len(self.turns)] % len(live)]
            i += 1
            try:
                outs[k].append(next(its[k]))
            except StopIteration:
                live.remove(k)
            check(len(outs[k]) <= len(self.verts), "too many vertices")
            yield
        pre, post = outs
        want = set(self.verts) if self.root is None \
            else reach(self.adj, self.root[0])
        for o in outs:
            check(len(o) == len(want) and set(o) == want,
                  "search order %r does not list each vertex once" % (o,))
        if self.root is not None:
            check(pre[0] == self.root[0] and post[-1] == self.root[0],
                  "root is not at the end of the order")
        check(follows_dfs(self.adj, pre), "%r is no preorder" % (pre,))
        pos = {v: i for i, v in enumerate(post)}
        for v in want:
            for w in self.adj[v]:
                if pos[w] > pos[v]:
                    check(v in reach(self.adj, w),
                          "%r is no postorder: %r,%r" % (post, v, w))
        for v, w in self.pairs:
            check(bool(D.reachable(self.G, v, w)) ==
                  (w in reach(self.adj, v)), "reachable(%r,%r)" % (v, w))
            yield


class DfsHandlers(GraphCase):
    """Search driving caller-supplied handlers, each of which may fail."""

    def body(self, cx):
        D = cx.L.dfs
        log = []

        class Mine(D.Searcher):
            def preorder(self, parent, child):
                touch("preorder handler")
                log.append((parent, child, D.forward))

            def postorder(self, parent, child):
                touch("postorder handler")
                log.append((parent, child, D.reverse))

            def backedge(self, a, b):
                touch("backedge handler")
                log.append((a, b, D.nontree))
        Mine(self.G)
        yield
        D.Searcher(self.G)              # handlers may be left out
        want = list(D.search(self.G))
        check(log == want, "handlers saw %r, search gives %r" % (log, want))


class BfsLevels(GraphCase):
    """Levels, consumed one at a time; all of them are kept to the end."""

    def draw(self, sim):
        if not self.verts:
            self.adj = {0: []}
            self.verts = [0]
            self.G = represent(sim, self.adj)
        self.root = sim.pick(self.verts)
        self.consume = sim.flag(1, 3)

    def body(self, cx):
        dist = distances(self.adj, self.root)
        kept = []
        i = 0
        for level in cx.L.bfs.breadth_first_levels(self.G, self.root):
            snap = {v: set(level[v]) for v in level}
            check(set(snap) == {v for v in dist if dist[v] == i},
                  "level %d holds %r" % (i, list(snap)))
            for v in snap:
                check(snap[v] == {w for w in self.adj[v]
                                  if dist[w] == i + 1},
                      "edges of level %d at %r: %r" % (i, v, snap[v]))
            kept.append((level, snap))
            if self.consume:
                # the caller owns what it was given
                scribble(level)
                kept.pop()
            i += 1
            check(i <= len(self.verts), "too many levels")
            yield
        check(i == 1 + max(dist.values()), "stopped after %d levels" % i)
        for level, snap in kept:
            check({v: set(level[v]) for v in level} == snap,
                  "level changed after it was delivered")


def scc_sets(adj):
    r = {v: reach(adj, v) for v in adj}
    return {frozenset([w for w in r[v] if v in r[w]]) for v in adj}


class StrongComponents(GraphCase):
    def body(self, cx):
        S = cx.L.strong_connectivity
        C = S.StronglyConnectedComponents(self.G)
        yield
        want = scc_sets(self.adj)
        check(len(C) == len(want), "%d components" % len(C))
        got = []
        for comp in C:
            got.append(frozenset(comp))
            for v in comp:
                check(set(comp[v]) == {w for w in self.adj[v] if w in comp},
                      "component is not an induced subgraph")
            yield
        check(len(got) == len(want) and set(got) == want,
              "components %r" % (got,))
        check([frozenset(c) for c in C] == got, "second listing differs")
        scribble(*C)


class Condense(GraphCase):
    def body(self, cx):
        S = cx.L.strong_connectivity
        D = S.Condensation(self.G)
        yield
        want = scc_sets(self.adj)
        check(len(D) == len(want) and set(D) == want, "condensation vertices")
        home = {v: c for c in want for v in c}
        edges = {(home[v], home[w]) for v in self.adj for w in self.adj[v]
                 if home[v] != home[w]}
        got = {(c, d) for c in D for d in D[c]}
        check(got == edges, "condensation edges %r, not %r" % (got, edges))
        scribble(D)


class DagCase(GraphCase):
    huge = 160

    def generate(self, sim):
        return dag(sim, self.nmax, self.big, self.huge)


def acyclic(adj):
    return all([v not in reach(adj, w) for v in adj for w in adj[v]])


class TopOrder(GraphCase):
    """Topological order of DAGs, refusal of everything else."""

    def generate(self, sim):
        if sim.flag(2, 3):
            return dag(sim, self.nmax, self.big, self.huge)
        return digraph(sim, self.nmax, big=self.big, huge=self.huge)

    def draw(self, sim):
        self.perm = sim.shuffled(self.verts)

    def body(self, cx):
        P = cx.L.partial_order
        ok = acyclic(self.adj)
        check(bool(P.isAcyclic(self.G)) == ok, "isAcyclic")
        yield
        if ok:
            L = P.TopologicalOrder(self.G)
            pos = {v: i for i, v in enumerate(L)}
            check(len(L) == len(self.verts) and set(L) == set(self.verts),
                  "order %r is not a permutation" % (L,))
            check(all([pos[v] < pos[w] for v in self.adj
                       for w in self.adj[v]]), "order %r" % (L,))
            scribble(L)
        else:
            expect(ValueError, lambda: P.TopologicalOrder(self.G),
                   "TopologicalOrder of a cyclic graph")
        yield
        pos = {v: i for i, v in enumerate(self.perm)}
        check(bool(P.isTopologicalOrder(self.G, self.perm)) ==
              all([pos[v] < pos[w] for v in self.adj for w in self.adj[v]]),
              "isTopologicalOrder of a permutation")
        check(not P.isTopologicalOrder(self.G, self.perm[1:])
              or not self.perm, "isTopologicalOrder with a vertex missing")
        check(not P.isTopologicalOrder(self.G, self.perm + ["stranger"]),
              "isTopologicalOrder with a vertex that is not there")
        check(not P.isTopologicalOrder(self.G, self.perm + self.perm[:1])
              or not self.perm, "isTopologicalOrder with a vertex twice")


class Closure(GraphCase):
    huge = 50

    def body(self, cx):
        P = cx.L.partial_order
        T = P.TransitiveClosure(self.G)
        yield
        check(set(T) == set(self.verts), "closure vertices")
        for v in T:
            check(set(T[v]) == reach(self.adj, v) - {v},
                  "closure at %r is %r" % (v, T[v]))
        scribble(T)


class ReachQueries(DagCase):
    """A built reachability structure, queried by several callers."""

    shared_survives = True

    def draw(self, sim):
        self.queries = [(sim.pick(self.verts), sim.pick(self.verts))
                        for _ in range(sim.choose(6) + 2)] if self.verts else []

    def prepare(self, cx):
        return cx.L.acyclic_reachability.Reachability(self.G)

    def body(self, cx):
        R = cx.shared
        for v, w in self.queries:
            check(bool(R.reachable(v, w)) == (w in reach(self.adj, v)),
                  "reachable(%r,%r)" % (v, w))
            yield
        if cx.idx % 2:
            R2 = cx.L.acyclic_reachability.Reachability(self.G)
            for v, w in self.queries:
                check(bool(R2.reachable(v, w)) == (w in reach(self.adj, v)),
                      "second structure reachable(%r,%r)" % (v, w))
                yield


class ReachBuild(DagCase):
    def body(self, cx):
        R = cx.L.acyclic_reachability.Reachability(self.G)
        yield
        for v in self.verts:
            r = reach(self.adj, v)
            for w in self.verts:
                check(bool(R.reachable(v, w)) == (w in r),
                      "reachable(%r,%r)" % (v, w))


# -- 2-satisfiability -----------------------------------------------------------

class TwoSat(Case):
    """Implication graphs over variables of any hashable kind."""

    def __init__(self, sim):
        n = how_many(sim, 1, 6, 10)
        if sim.flag(1, 16):
            n = sim.between(11, 40)
        self.n = n
        names = namer(sim, n)
        m = sim.between(n, 3 * n) if n > 10 else sim.choose(3 * n)
        lits = [(i, s) for i in range(n) for s in (True, False)]
        self.imps = []
        graph = {}
        for _ in range(m):
            a, b = sim.pick(lits), sim.pick(lits)
            self.imps.append((a, b))
            graph.setdefault(a, [])
            if b not in graph[a]:
                graph[a].append(b)
        if sim.flag(1, 3):
            for i in range(n):
                graph.setdefault((i, sim.flag(1, 4) is False), [])
        self.order = sim.shuffled(list(graph)) if sim.flag(1, 2) \
            else list(graph)
        self.graph = {a: graph[a] for a in self.order}
        self.names = names
        self.rep = sim.choose(4)
        self.mix = sim.flag(1, 4)
        self.vars = sorted({i for a in graph for i in
                            [a[0]] + [b[0] for b in graph[a]]})
        if n > 10:
            self.by_closure()
            return
        # reference: every assignment
        models = []
        for bits in range(1 << n):
            val = lambda l: bool(bits >> l[0] & 1) == l[1]
            if all([not val(a) or val(b) for a, b in self.imps]):
                models.append(bits)
        self.sat = bool(models)
        self.want = {}
        for i in self.vars:
            vals = {m >> i & 1 for m in models}
            if len(vals) == 1:
                self.want[names[i]] = bool(vals.pop())

    def by_closure(self):
        """The same for many variables: literals that imply their negation."""
        to = {(i, s): {(i, s)} for i in range(self.n) for s in (True, False)}
        for (i, s), (j, t) in self.imps:
            to[i, s].add((j, t))
            to[j, not t].add((i, not s))
        for k in to:
            for a in to:
                if k in to[a]:
                    to[a] |= to[k]
        bad = {(i, s) for i, s in to if (i, not s) in to[i, s]}
        self.sat = not any([(i, not s) in bad for i, s in bad])
        self.want = {self.names[i]: not s for i, s in bad}

    def make(self, cx):
        """The instance in terms of the present world's negation."""
        N = cx.L._not.Not
        count = [0]

        def name(i):
            x = fresh(self.names[i])
            count[0] += 1
            if self.mix and count[0] % 2 and type(x) is int and -99 < x < 999:
                return float(x)
            return x
        lit = lambda l: name(l[0]) if l[1] else N(name(l[0]))
        adj = {lit(a): [lit(b) for b in self.graph[a]] for a in self.graph}
        if self.rep == 0:
            return adj
        if self.rep == 1:
            return {v: set(adj[v]) for v in adj}
        if self.rep == 2:
            return {v: tuple(adj[v]) for v in adj}
        return GraphProxy(adj)

    def prepare(self, cx):
        G = self.make(cx)
        return (G, freeze(G))

    def describe(self):
        return "names %r implications %r" % (self.names, self.graph)

    def body(self, cx):
        T = cx.L.two_satisfiability
        N = cx.L._not.Not
        G, snap = cx.shared
        sat = self.sat
        check(bool(T.Satisfiable(G)) == sat, "Satisfiable of %r" % (self.graph,))
        yield
        F = T.Forced(G)
        if not sat:
            check(F is None, "Forced of an unsatisfiable instance: %r" % (F,))
        else:
            want = self.want
            check(F is not None and {k: bool(F[k]) for k in F} == want,
                  "Forced gives %r, not %r" % (F, want))
        yield
        S = T.Symmetrize(G)
        lit = lambda l: self.names[l[0]] if l[1] else N(self.names[l[0]])
        edges = set()
        for a in self.graph:
            for b in self.graph[a]:
                edges.add((lit(a), lit(b)))
                edges.add((N(lit(b)), N(lit(a))))
        check({(v, w) for v in S for w in S[v]} == edges,
              "Symmetrize edges")
        check(set(S) == {lit((i, s)) for i in self.vars
                         for s in (True, False)}, "Symmetrize vertices")
        scribble(F, S)
        check(freeze(G) == snap, "caller's implication graph was changed")
        Neg = cx.L._not.SymbolicNegation
        for x in self.names:
            y = N(x)
            check(isinstance(y, Neg) and N(y) == x and y == N(fresh(x)) and
                  hash(y) == hash(N(fresh(x))) and y != fresh(x), "negation of %r" % (x,))
            check(not any([y == N(z) for z in self.names if z != x]),
                  "negations of different variables are equal")
            check(repr(y) == "Not(%r)" % (x,), "name of a negation")
        expect(cx.L._not.DoubleNegationError, lambda: Neg(y),
               "negation of a negation")


class GraphTools(GraphCase):
    """The simple graph functions, including ones taking a factory."""

    def generate(self, sim):
        if sim.flag(1, 2):
            return undirected(sim, 0, 8, big=self.big)
        return digraph(sim, 7, big=self.big)

    def draw(self, sim):
        self.V = set(sim.subset(self.verts))
        self.factory = sim.choose(3)
        adj2 = rename(digraph(sim, 5), namer(sim, 6))
        self.G2 = represent(sim, adj2)
        self.adj2 = adj2

    def make_factory(self, cx):
        if self.factory == 0:
            return None

        def faulty(seq):
            touch("adjacency factory")
            return (list, set)[self.factory - 1](seq)
        return faulty

    def body(self, cx):
        g = cx.L.graphs
        und = all([v not in self.adj[v] and
                   all([v in self.adj[w] for w in self.adj[v]])
                   for v in self.adj])
        check(bool(g.is_undirected(self.G)) == und, "is_undirected")
        yield
        f = self.make_factory(cx)
        a = () if f is None else (f,)
        H = g.copy_graph(self.G, *a)
        check(all([type(H[v]) is (set, list, set)[self.factory]
                   for v in H]), "kind of collections in a copy")
        check({v: sorted(map(repr, H[v])) for v in H} ==
              {v: sorted(map(repr, self.adj[v])) for v in self.adj},
              "copy_graph")
        # the copy is the caller's own
        for v in H:
            H[v].clear()
        H.clear()
        yield
        H = g.induced_subgraph(self.V, self.G, *a)
        check(all([type(H[v]) is (set, list, set)[self.factory]
                   for v in H]), "kind of collections in a subgraph")
        check({v: set(H[v]) for v in H} ==
              {v: {w for w in self.adj[v] if w in self.V}
               for v in self.adj if v in self.V}, "induced_subgraph")
        yield
        ind = all([w not in self.V for v in self.V for w in self.adj[v]])
        check(bool(g.is_independent_set(self.V, self.G)) == ind,
              "is_independent_set(%r)" % (self.V,))
        yield
        U = g.union(self.G, self.G2)
        want = {}
        for A in (self.adj, self.adj2):
            for v in A:
                want.setdefault(v, set()).update(A[v])
        check({v: set(U[v]) for v in U} == want, "union")
        scribble(U)
        check(g.union() == {}, "union of no graphs")
        yield
        u = cx.L.util
        H = g.copy_graph(self.G, u.map_to_constant(self.factory))
        check(H == {v: {w: self.factory for w in self.adj[v]}
                    for v in self.adj}, "copy with constant edge data")
        if self.verts:
            check(u.arbitrary_item(self.G) in self.adj, "arbitrary vertex")
        for v in self.verts[:3]:
            if self.adj[v]:
                check(u.arbitrary_item(self.G[v]) in self.adj[v],
                      "arbitrary neighbour")
            else:
                expect(IndexError, lambda: u.arbitrary_item(self.G[v]),
                       "arbitrary item of nothing")
        yield
        if self.adj:
            check(g.max_degree(self.G) == max(map(len, self.adj.values())),
                  "max_degree")
            check(g.min_degree(self.G) == min(map(len, self.adj.values())),
                  "min_degree")

    def fingerprint(self):
        return freeze([self.G, self.G2, self.V])
