"""Caller-side environment: vertices, graphs in several representations, and
fault points inside what the caller supplies."""

from .engine import touch


class Vertex:
    """Hashable with a chosen hash; not orderable."""

    __slots__ = ("n", "h")

    def __init__(self, n, h):
        self.n = n
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, Vertex) and other.n == self.n

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return "v%d" % self.n


class OVertex(Vertex):
    """As Vertex, and orderable."""

    __slots__ = ()

    def __lt__(self, other):
        return self.n < other.n

    def __le__(self, other):
        return self.n <= other.n

    def __gt__(self, other):
        return self.n > other.n

    def __ge__(self, other):
        return self.n >= other.n


NAMINGS = ("int", "negint", "str", "tuple", "ordered", "opaque", "clash",
           "mixed", "empty")
ORDERABLE = ("int", "negint", "str", "tuple", "ordered")


def hash_of(i, salt):
    return (i * 0x9E3779B97F4A7C15 ^ (salt * 31 + 7)) % (1 << 61)


def namer(sim, n, orderable=False):
    """A list of n distinct vertex names."""
    kinds = ORDERABLE if orderable else NAMINGS
    kind = kinds[sim.choose(len(kinds))]
    return named(sim, n, kind)


def named(sim, n, kind):
    if kind == "int":
        low = sim.pick((0, 0, 1, -n, -n // 2))
        return list(range(low, low + n))
    if kind == "negint":
        # -1 and -2 have equal hashes; large ones are multiples of the modulus
        base = [-1, -2, 0, 1 << 61, (1 << 61) - 1, -3, 7, 1 << 62]
        base += [100 + 8 * i for i in range(n)]
        return base[:n]
    if kind == "str":
        return ["%c%d" % (97 + i % 26, i // 26) for i in range(n)]
    if kind == "tuple":
        return [(i // 3, i % 3) for i in range(n)]
    if kind == "mixed":
        out = []
        for i in range(n):
            out.append([i, "s%d" % i, (i, "t"), frozenset([i, -1])][i % 4])
        return out
    if kind == "empty":
        return [None, "", (), frozenset(), 0, 0.5, b"", "None"][:n] + \
            [(i,) for i in range(8, n)]
    salt = sim.scramble()
    if kind == "clash":
        return [Vertex(i, (salt + i % 3) % 8) for i in range(n)]
    cls = OVertex if kind == "ordered" else Vertex
    return [cls(i, hash_of(i, salt)) for i in range(n)]


def fresh(x):
    """An object equal to x; another one wherever that can be had."""
    if type(x) is str:
        return "".join(list(x))
    if type(x) is int:
        return int(str(x))
    if type(x) is tuple:
        return tuple([fresh(y) for y in x])
    if type(x) is frozenset:
        return frozenset([fresh(y) for y in x])
    if type(x) is float:
        return x * 2 / 2
    if isinstance(x, Vertex):
        return type(x)(x.n, x.h)
    return x


def scribble(*answers):
    """Spoil answers, which are the caller's to do with as they like."""
    for x in answers:
        if isinstance(x, dict):
            scribble(*list(x.values()))
            x.clear()
        elif isinstance(x, (list, set)):
            scribble(*list(x))
            x.clear()
        elif isinstance(x, (tuple, frozenset)):
            scribble(*x)


class Adj:
    """Neighbour collection whose every use is a fault and schedule point."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        touch("neighbours")
        for x in self.items:
            yield x
            touch("next neighbour")

    def __len__(self):
        touch("degree")
        return len(self.items)

    def __contains__(self, x):
        touch("adjacency test")
        return x in self.items

    def __getitem__(self, x):
        touch("edge data")
        return self.items[x]


class GraphProxy:
    """Graph object supplied by the caller: only what the docs ask for."""

    __slots__ = ("data", "wrap")

    def __init__(self, data):
        self.data = data

    def __iter__(self):
        touch("vertices")
        for v in self.data:
            yield v
            touch("next vertex")

    def __getitem__(self, v):
        touch("lookup")
        return Adj(self.data[v])

    def __len__(self):
        touch("order")
        return len(self.data)

    def __contains__(self, v):
        touch("vertex test")
        return v in self.data

    def keys(self):
        return list(self)

    def values(self):
        return [self[v] for v in self]

    def items(self):
        return [(v, self[v]) for v in self]

    def get(self, v, default=None):
        return self[v] if v in self else default


def freeze(x):
    """Comparable snapshot of (nested) caller data, order included."""
    if isinstance(x, GraphProxy):
        return freeze(x.data)
    if isinstance(x, Adj):
        return freeze(x.items)
    if isinstance(x, dict):
        return ("d", tuple([(k, freeze(v)) for k, v in x.items()]))
    if isinstance(x, (set, frozenset)):
        return ("s", frozenset(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple([freeze(v) for v in x]))
    return x


REPS = ("set", "list", "tuple", "dict", "proxy", "proxyset")


def represent(sim, adj, reps=REPS, value=None):
    """Caller's graph object for adjacency lists {v: [w, ...]}.

    value(v, w) gives edge data for dict representations."""
    kind = reps[sim.choose(len(reps))]
    adj = {v: [fresh(w) for w in adj[v]] for v in adj}
    if kind == "set":
        return {v: set(adj[v]) for v in adj}
    if kind == "list":
        return {v: list(adj[v]) for v in adj}
    if kind == "tuple":
        return {v: tuple(adj[v]) for v in adj}
    if kind == "dict":
        f = value or (lambda v, w: True)
        return {v: {w: f(v, w) for w in adj[v]} for v in adj}
    if kind == "proxyset":
        return GraphProxy({v: set(adj[v]) for v in adj})
    if kind == "proxydict":
        return GraphProxy({v: {w: value(v, w) for w in adj[v]} for v in adj})
    return GraphProxy({v: list(adj[v]) for v in adj})


def rename(adj, names):
    return {names[i]: [names[j] for j in adj[i]] for i in adj}


def reorder(sim, adj):
    """Shuffle vertex order and each neighbour order."""
    if not sim.flag(2, 3):
        return adj
    return {v: sim.shuffled(adj[v]) for v in sim.shuffled(list(adj))}


# -- random graphs over 0..n-1 as {i: [j, ...]} ---------------------------------

def how_many(sim, lo, hi, big):
    """How many vertices; now and then up to big."""
    if big > hi and sim.flag(1, 8):
        return sim.between(hi, big)
    return sim.small(lo, hi)


def sprawling(sim, top, kind):
    """Many vertices and few edges; kind is "any", "dag" or "undirected"."""
    n = sim.between(top // 3, top)
    adj = {i: [] for i in range(n)}
    salt = sim.scramble()
    names = sorted(range(n), key=lambda i: hash_of(i, salt) if salt else i)

    def join(a, b):
        if kind == "dag":
            a, b = min(a, b), max(a, b)
        a, b = names[a], names[b]
        if b in adj[a] or (a == b and kind != "any"):
            return
        adj[a].append(b)
        if kind == "undirected":
            adj[b].append(a)
    style = sim.choose(5)
    if style == 4:      # triangles and squares hanging together at vertices
        i = 1
        while i + 2 < n:
            a, k = sim.choose(i), sim.choose(2)
            for b, c in ((a, i), (i, i + 1), (i + 1, i + 1 + k)):
                join(b, c)
            join(i + 1 + k, a)
            i += 2 + k
        return adj
    for i in range(1, n):
        if style == 1:
            join(i - 1, i)
        elif style == 2:
            join(sim.choose(i), i)
        elif style == 3:
            join(i % (1 + n // 20), i)
    for _ in range(sim.choose(n + 1)):
        join(sim.choose(n), sim.choose(n))
    return adj


def digraph(sim, nmax=9, loops=True, big=0, huge=0):
    if huge and sim.flag(1, 200):
        return sprawling(sim, huge, "any")
    n = how_many(sim, 0, nmax, big)
    adj = {i: [] for i in range(n)}
    if not n:
        return adj
    style = sim.choose(4)
    if style == 3:
        # planted structure: a few cycles joined by forward edges
        i = 0
        while i < n:
            k = min(n - i, 1 + sim.choose(4))
            for j in range(k):
                if k > 1:
                    adj[i + j].append(i + (j + 1) % k)
            i += k
        for _ in range(sim.choose(n + 1)):
            a, b = sorted([sim.choose(n), sim.choose(n)])
            if a != b and b not in adj[a]:
                adj[a].append(b)
        return adj
    den = (2, 4, 8)[style] if n <= nmax else (4, n, n)[style]
    for i in range(n):
        for j in range(n):
            if (i != j or loops) and sim.flag(1, den):
                adj[i].append(j)
    return adj


def dag(sim, nmax=9, big=0, huge=0):
    if huge and sim.flag(1, 200):
        return sprawling(sim, huge, "dag")
    n = how_many(sim, 0, nmax, big)
    den = sim.pick((2, 3, 5)) if n <= nmax else sim.pick((4, n // 2, n))
    adj = {i: [] for i in range(n)}
    order = sim.shuffled(range(n))
    for a in range(n):
        for b in range(a + 1, n):
            if sim.flag(1, den):
                adj[order[a]].append(order[b])
    return adj


def add_edge(adj, a, b):
    if a != b and b not in adj[a]:
        adj[a].append(b)
        adj[b].append(a)


def undirected(sim, nmin=0, nmax=9, connected=False, big=0, huge=0):
    if huge and sim.flag(1, 200):
        return sprawling(sim, huge, "undirected")
    n = how_many(sim, nmin, nmax, big)
    adj = {i: [] for i in range(n)}
    style = sim.choose(6)
    if style == 0 or n < 2:
        den = sim.pick((2, 3, 5)) if n <= nmax else sim.pick((3, 8, n))
        for i in range(n):
            for j in range(i):
                if sim.flag(1, den):
                    add_edge(adj, i, j)
    elif style == 1:           # tree plus chords
        for i in range(1, n):
            add_edge(adj, i, sim.choose(i))
        for _ in range(sim.choose(3)):
            add_edge(adj, sim.choose(n), sim.choose(n))
    elif style == 2:           # cycles glued together
        for _ in range(1 + sim.choose(3) + n // 8):
            vs = sim.shuffled(range(n))[:3 + sim.choose(4)]
            for a, b in zip(vs, vs[1:] + vs[:1]):
                add_edge(adj, a, b)
    elif style == 3:           # bipartite
        half = 1 + sim.choose(n - 1)
        for i in range(half):
            for j in range(half, n):
                if sim.flag(1, 2):
                    add_edge(adj, i, j)
    elif style == 4:           # path or cycle
        for i in range(1, n):
            add_edge(adj, i - 1, i)
        if sim.flag(1, 2):
            add_edge(adj, 0, n - 1)
    else:                      # dense
        for i in range(n):
            for j in range(i):
                if not sim.flag(1, 4):
                    add_edge(adj, i, j)
    if connected:
        seen = set()
        reps = []
        for v in range(n):
            if v not in seen:
                reps.append(v)
                todo = [v]
                seen.add(v)
                while todo:
                    x = todo.pop()
                    for y in adj[x]:
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
        for r in reps[1:]:
            add_edge(adj, reps[0], r)
    return adj


# -- small independent reference algorithms ----------------------------------------

def reach(adj, s):
    seen = {s}
    todo = [s]
    while todo:
        x = todo.pop()
        for y in adj[x]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def distances(adj, s):
    d = {s: 0}
    q = [s]
    for x in q:
        for y in adj[x]:
            if y not in d:
                d[y] = d[x] + 1
                q.append(y)
    return d


def components(adj):
    seen = set()
    out = []
    for v in adj:
        if v not in seen:
            c = reach(adj, v)
            seen |= c
            out.append(c)
    return out
