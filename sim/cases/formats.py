"""Reading graphs from faulty sources, writing drawings to faulty sinks."""

import io
import xml.parsers.expat

from ..engine import E, touch
from ..env import add_edge, freeze, scribble, undirected
from ..scenario import Case, check, expect, wrong


class DiskError(OSError):
    pass


class Source(io.TextIOBase):
    """A text file that hands out lines and may break."""

    def __init__(self, lines, fail=None):
        self.lines, self.fail, self.at = lines, fail, 0

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readable(self):
        return True

    def readline(self, size=-1):
        touch("read")
        if self.fail is not None and self.at >= self.fail:
            raise DiskError("read error")
        if self.at >= len(self.lines):
            return ""
        self.at += 1
        return self.lines[self.at - 1] + "\n"

    def read(self, size=-1):
        out = []
        while True:
            line = self.readline()
            if not line:
                return "".join(out)
            out.append(line)


# -- encoders ----------------------------------------------------------------------------

def six(bits):
    bits = bits + [0] * (-len(bits) % 6)
    return "".join([chr(63 + int("".join(map(str, bits[i:i + 6])), 2))
                    for i in range(0, len(bits), 6)])


def header(n):
    if n <= 62:
        return chr(63 + n)
    if n > 258047:
        return "~~" + "".join([chr(63 + (n >> i & 63))
                               for i in range(30, -1, -6)])
    return "~" + chr(63 + (n >> 12)) + chr(63 + (n >> 6 & 63)) + \
        chr(63 + (n & 63))


def graph6(adj):
    n = len(adj)
    return header(n) + six([int(i in adj[j]) for j in range(1, n)
                            for i in range(j)])


def sparse6(adj):
    n = len(adj)
    k = max(n - 1, 1).bit_length()
    bits = []

    def put(b, x):
        bits.append(b)
        bits.extend([x >> i & 1 for i in range(k - 1, -1, -1)])
    v = 0
    for w in range(n):
        for u in sorted([u for u in adj[w] if u < w]):
            if w == v:
                put(0, u)
            elif w == v + 1:
                put(1, u)
                v = w
            else:
                put(1, w)
                v = w
                put(0, u)
    pad = -len(bits) % 6
    last = max([w for w in adj if adj[w]], default=0)
    if n in (2, 4, 8, 16) and pad > k and last == n - 2:
        bits += [0] + [1] * (pad - 1)
    else:
        bits += [1] * pad
    return ":" + header(n) + six(bits)


def edges_of(adj):
    return [(u, w) for w in sorted(adj) for u in sorted(adj[w]) if u < w]


def malf(adj, sim):
    out = ["%d some name" % (v + 1) if sim.flag(1, 4) else str(v + 1)
           for v in sorted(adj)]
    out.append("#")
    for i, (u, w) in enumerate(edges_of(adj)):
        out.append("%d 0 %d %d" % (i + 1, u + 1, w + 1))
    return out, {v: v + 1 for v in adj}


def edge_list(adj, sim):
    names = {v: "%s%d" % (sim.pick(("a", "node", "x-", ":")), v)
             for v in adj}
    dash = sim.flag()
    return ["%s%s%s" % (names[u], " - " if dash else " ", names[w])
            for u, w in edges_of(adj)], names


def node_edge_list(adj, sim):
    names = {v: "%s%d" % (sim.pick(("a", "node ", "=")), v) for v in adj}
    out = ["// nodes"] + [names[v] for v in sorted(adj)]
    es = edges_of(adj)
    named = sim.flag()
    out.append("// named edges" if named else "// edges")
    for i, (u, w) in enumerate(es):
        if named:
            out.append("e%d" % i)
        out += [names[u], names[w]]
    return out, names


def leda(adj, sim):
    out = ["LEDA.GRAPH", "string", "int"]
    if sim.flag(1, 3):
        out.insert(0, "# header")
    out.append(str(len(adj)))
    out += ["|{%s}|" % v for v in sorted(adj)]
    es = edges_of(adj)
    out.append(str(2 * len(es)))
    both = [e for u, w in es for e in ((u, w), (w, u))]
    how = sim.choose(3)
    if how == 1:
        both.sort()             # by source, as the format has it
    elif how == 2:
        both = sim.shuffled(both)
    at = {e: i + 1 for i, e in enumerate(both)}
    for u, w in both:
        out.append("%d %d %d |{0}|" % (u + 1, w + 1, at[w, u]))
    return out, {v: v + 1 for v in adj}


def graphml(adj, sim):
    names = {v: "n%d" % v for v in adj}
    broken = sim.flag(1, 3)
    sep = "\n  " if broken else " "
    default = sim.flag()
    extra = sim.choose(4)
    out = ['<?xml version="1.0"?>', "<graphml>"]
    if extra & 1:
        out += ['<desc>text &amp; more</desc>',
                '<key id="d0" for="node" attr.name="colour"/>']
    out += [
           '<graph edgedefault="%s">' % ("undirected" if default
                                         else "directed")]
    for v in sorted(adj):
        out.append('<node%sid="%s"%s' % (sep, names[v], "/>" if extra < 2
                   else '><data key="d0">x</data><desc/></node>'))
    for u, w in edges_of(adj):
        d = "" if default else ' directed="false"'
        out.append('<edge%ssource="%s" target="%s"%s/>'
                   % (sep, names[u], names[w], d))
    if extra & 1:
        out.append('<data key="d0">source</data>')
    out.append("</graph>")
    if extra == 3:
        out.append('<data key="d1"><node id="elsewhere"/></data>')
    out.append("</graphml>")
    return "\n".join(out).split("\n"), names


# -- what a damaged text says ------------------------------------------------------------

class Broken(Exception):
    """The text breaks the rules of its format."""


def unsix(text):
    if not text or not all(["?" <= c <= "~" for c in text]):
        raise Broken("characters")
    return "".join([format(ord(c) - 63, "06b") for c in text])


def unheader(bits):
    """Size, and the bits that follow it."""
    for k in (1, 4, 8):
        if len(bits) < 6 * k:
            raise Broken("size")
        unit = bits[6 * (k // 4):6 * k] if k > 1 else bits[:6]
        if k == 8:
            unit = bits[12:48]
        if not unit.startswith("111111") or k == 8:
            return int(unit, 2), bits[6 * k:]


def join(G, u, w):
    if u == w or u not in G or w not in G:
        raise Broken("edge")
    G[u].add(w)
    G[w].add(u)


def ungraph6(text):
    n, bits = unheader(unsix(text))
    need = n * (n - 1) // 2
    if len(bits) != need + -need % 6:
        raise Broken("length")
    pairs = [(i, j) for j in range(n) for i in range(j)]
    G = {v: set() for v in range(n)}
    for (i, j), b in zip(pairs, bits):
        if b == "1":
            join(G, i, j)
    return G


def unsparse6(text):
    if text[:1] != ":":
        raise Broken("colon")
    n, bits = unheader(unsix(text[1:]))
    k = max(1, (n - 1).bit_length())
    G = {v: set() for v in range(n)}
    v = 0
    for i in range(0, len(bits) - k, k + 1):
        v += bits[i] == "1"
        x = int(bits[i + 1:i + k + 1], 2)
        if x >= n or v >= n:
            break
        if x > v:
            v = x
        else:
            join(G, x, v)
    return G


def number(word):
    try:
        return int(word)
    except ValueError:
        raise Broken("number")


def unmalf(lines):
    cut = lines.index("#")
    G = {}
    for i, line in enumerate(lines[:cut]):
        if number(line.split()[0]) != i + 1:
            raise Broken("vertex")
        G[i + 1] = set()
    for i, line in enumerate(lines[cut + 1:]):
        nums = [number(x) for x in line.split()]
        if len(nums) != 4 or nums[:2] != [i + 1, 0]:
            raise Broken("edge")
        join(G, nums[2], nums[3])
    return G


def unlist(lines):
    G = {}
    for line in lines:
        words = line.split()
        if len(words) == 3 and words[1] == "-":
            del words[1]
        if len(words) != 2:
            raise Broken("words")
        for w in words:
            G.setdefault(w, set())
        join(G, words[0], words[1])
    return G


def unnodes(lines):
    parts = []
    for line in lines:
        if line.startswith("// "):
            parts.append((line[3:], []))
        elif not parts:
            raise Broken("section")
        else:
            parts[-1][1].append(line)
    G = {}
    known = set()
    for name, rest in parts:
        if name == "nodes":
            for v in rest:
                if v in G:
                    raise Broken("twice")
                G[v] = set()
        elif name in ("edges", "named edges"):
            k = 2 + (name != "edges")
            if len(rest) % k:
                raise Broken("piece of an edge")
            for i in range(0, len(rest), k):
                if any([x.startswith("//") for x in rest[i + k - 2:i + k]]):
                    return None     # a name that looks like a section
                if k == 3:
                    if rest[i] in known:
                        raise Broken("name")
                    known.add(rest[i])
                join(G, rest[i + k - 2], rest[i + k - 1])
        else:
            raise Broken("section")
    return G


def unleda(lines):
    if len(lines) < 4:
        raise Broken("header")
    n = number(lines[3])
    G = {v + 1: set() for v in range(n)}
    rest = lines[4 + len(G):]
    if not rest:
        raise Broken("vertices")
    m = max(0, number(rest[0]))
    if len(rest) <= m:
        raise Broken("edges")
    ways = set()
    for line in rest[1:m + 1]:
        words = line.split()
        if len(words) < 4 or not number(words[2]):
            raise Broken("fields")
        ways.add((number(words[0]), number(words[1])))
    for u, w in ways:
        if u < w:
            join(G, u, w)
        elif (w, u) not in ways or u == w:
            raise Broken("reversal")
    return G


def meaning(lines):
    """The graph a text describes, None if that is not for us to say."""
    lines = [x.strip() for x in lines]
    lines = [x for x in lines if x]
    if not lines:
        return {}
    first = lines[0]
    if len(lines) == 1:
        for mark, reader, skip in ((">>graph6<<", ungraph6, 0),
                                   (">>sparse6<<", unsparse6, 1)):
            if first.startswith(mark):
                return reader(first[len(mark):])
        if all(["?" <= c <= "~" for c in first]):
            return ungraph6(first)
        if first[0] == ":" and first[1:] and \
                all(["?" <= c <= "~" for c in first[1:]]):
            return unsparse6(first)
    body = [x for x in lines if x[0] != "#"]
    if body[:1] == ["LEDA.GRAPH"]:
        return unleda(body)
    if first[0] == "<":
        return None
    if first.startswith("//"):
        return unnodes(lines)
    if "#" in lines:
        return unmalf(lines)
    return unlist(lines)


FORMATS = ["edges", "graph6", "sparse6", "malf", "nodes", "leda", "graphml"]


class ReadGraph(Case):
    """One encoded graph, delivered whole, damaged or not at all."""

    budget = 4000000

    def __init__(self, sim):
        self.fmt = sim.pick(FORMATS)
        if self.fmt in ("graph6", "sparse6"):
            adj = self.numbered(sim)
        else:
            adj = undirected(sim, 0, 7)
        if self.fmt == "edges":
            adj = {v: adj[v] for v in adj if adj[v]}
        if self.fmt == "graph6":
            self.lines = [(">>graph6<<" if sim.flag(1, 3) else "")
                          + graph6(adj)]
            names = {v: v for v in adj}
        elif self.fmt == "sparse6":
            self.lines = [(">>sparse6<<" if sim.flag(1, 3) else "")
                          + sparse6(adj)]
            names = {v: v for v in adj}
        else:
            self.lines, names = {"edges": edge_list, "malf": malf,
                                 "nodes": node_edge_list, "leda": leda,
                                 "graphml": graphml}[self.fmt](adj, sim)
        self.want = {names[v]: {names[w] for w in adj[v]} for v in adj}
        self.blank = self.fmt != "graphml" and sim.flag(1, 5)
        if self.blank and self.lines:
            self.lines = list(self.lines)
            self.lines.insert(sim.choose(len(self.lines) + 1), "")
        self.how = sim.choose(8)
        self.damage = sim.choose(4)
        self.fail = sim.choose(len(self.lines) + 1)
        if self.damage in (1, 2):
            self.harm(sim)

    def numbered(self, sim):
        if sim.flag(1, 12):
            n = sim.pick((62, 63, 64, 70))
            if self.fmt == "sparse6" and sim.flag(1, 4):
                n = sim.pick((31, 32, 33, 127, 128, 129, 255, 256, 257, 300,
                              512, 1024, 4096, 4097))
                if sim.flag(1, 12):
                    n = sim.pick((253951, 253952, 258047, 258048))
        else:
            n = sim.choose(19)
        adj = {i: [] for i in range(n)}
        if n < 2:
            return adj
        for _ in range(sim.small(0, min(2 * n, 999))):
            a, b = sim.choose(n), sim.choose(n)
            if a != b:
                add_edge(adj, a, b)
        return adj

    def harm(self, sim):
        """Cut the text off, or overwrite one character."""
        text = "\n".join(self.lines)
        low = 0
        if self.fmt == "sparse6":
            # a damaged size is still a size, and may be huge
            low = len(text.split("<<")[0]) + 2 if "<<" in text else 0
            low += 10 if "~~" in text else 6
        if len(text) <= low:
            self.damage = 0
            return
        at = low + sim.choose(len(text) - low)
        if self.damage == 1:
            text = text[:at]
        else:
            c = sim.pick("0?/ #<1a:~>\x7f\xe9")
            if c.isdigit() and text[at].isdigit():
                c = "3"
            text = text[:at] + c + text[at + 1:]
        self.lines = text.split("\n")
        try:
            self.says = meaning(self.lines)
        except Broken:
            self.says = "broken"

    def describe(self):
        return "%s how=%d damage=%d %r" % (self.fmt, self.how, self.damage,
                                           self.lines)

    def fingerprint(self):
        return freeze(self.lines)

    def deliver(self, fail=None):
        if self.how == 0 or fail is not None:
            return Source(self.lines, fail)
        if self.how == 1:
            return list(self.lines)
        if self.how == 2:
            return [x + "\n" for x in self.lines]
        if self.how == 3:
            return tuple(self.lines)
        if self.how == 4:
            return io.StringIO("\n".join(self.lines))
        return ("\n", "\r", "\r\n")[self.how - 5].join(self.lines)

    def body(self, cx):
        M = cx.L.read_undirected_graph
        if self.damage == 3:
            try:
                M.readUndirectedGraph(self.deliver(self.fail))
            except DiskError:
                E.recovered("read-error")
            else:
                wrong("a read error was swallowed")
            yield
        src = self.deliver()
        if self.damage in (1, 2):
            try:
                G = M.readUndirectedGraph(src)
            except M.GraphFormatError as e:
                E.recovered("damaged-input")
                check(self.says is None or self.says == "broken",
                      "refused: %s" % e)
                check(len(e.args) == 1 and "%s" not in str(e),
                      "message %r" % (e.args,))
            else:
                E.recovered("damaged-input")
                self.sane(G)
                check(self.says is None or self.says != "broken",
                      "accepted as %r" % (G,))
                check(self.says is None or
                      {v: set(G[v]) for v in G} == self.says,
                      "%s read as %r, not %r" % (self.fmt, G, self.says))
            yield
            return
        G = M.readUndirectedGraph(src)
        self.sane(G)
        got = {v: set(G[v]) for v in G}
        check(got == self.want, "%s read as %r" % (self.fmt, got))
        ids = {}
        for v in G:
            for w in G[v]:
                ids.setdefault(G[v][w], set()).add(frozenset((v, w)))
        check(all([len(s) == 1 for s in ids.values()]),
              "two edges share an identifier")
        scribble(G)
        yield

    def sane(self, G):
        check(isinstance(G, dict), "no graph: %r" % (G,))
        for v in G:
            check(v not in G[v], "loop at %r" % (v,))
            for w in G[v]:
                check(w in G and v in G[w] and G[w][v] == G[v][w],
                      "edge %r-%r is not symmetric" % (v, w))


class Refused(Case):
    """Texts that break the rules of their format."""

    def __init__(self, sim):
        self.lines = list(sim.pick((
            ["1", "3", "#"],                          # skipped number
            ["0", "#"], ["1", "1", "#"], ["-1", "1", "#"], ["2", "1", "#"],
            ["1", "2", "0", "#"], ["1", "2", "#", "1 0 0 1"],
            ["1", "2", "#", "1 0 1"],                 # short edge
            ["1", "2", "#", "1 1 1 2"],               # directed
            ["1", "2", "#", "2 0 1 2"],               # edge number
            ["1", "2", "#", "1 0 1 3"],               # unknown vertex
            ["1", "x", "#"],                          # no number
            ["a a"],                                  # loop
            ["a -> b"], ["a b c d"], ["a b", "c"],
            ["// nodes", "a", "a"],                   # twice
            ["// nodes", "a", "// edges", "a"],       # half an edge
            ["// nodes", "a", "b", "// edges", "a", "// nodes"],
            ["// knots", "a"],
            ["// nodes", "a", "b", "c", "// named edges", "e", "a", "b",
             "e", "b", "c"],
            ["// nodes", "a", "// named edges", "e"],
            ["// nodes", "a", "// edges", "a", "z"],
            ["LEDA.GRAPH", "s", "s", "2", "|{}|"],
            ["LEDA.GRAPH"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "1 2 0 |{}|"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "1 2"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "2 1 1 |{}|"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "2 2 1 |{}|"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "2", "2 3 2 |{}|",
             "3 2 1 |{}|"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "2 0 1 |{}|"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "4 3 1 |{}|"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "3 1 1 |{}|"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "0 1 1 |{}|"],
            ["LEDA.GRAPH", "s", "s", "2", "a", "b", "1", "1 x 1 |{}|"],
            ["LEDA.GRAPH", "s", "s", "two"],
            ["<graphml>", "<graph>", "</graph>", "</graphml>"],
            ["<svg/>"], ["<graphml>"], ["<graphml", "<"],
            ["<graphml>", '<graph edgedefault="undirected">', "<node/>",
             "</graph>", "</graphml>"],
            ["<graphml>", '<graph edgedefault="undirected">',
             '<node id="a"/>', '<node id="a"/>', "</graph>", "</graphml>"],
            ["<graphml>", '<graph edgedefault="directed">',
             '<node id="a"/>', '<node id="b"/>',
             '<edge source="a" target="b"/>', "</graph>", "</graphml>"],
            ["<graphml>", '<graph edgedefault="undirected">',
             '<node id="a"/>', '<edge source="a"/>', "</graph>",
             "</graphml>"],
            ["<graphml>", '<graph edgedefault="undirected">',
             '<node id="a"/>', '<edge target="a"/>', "</graph>",
             "</graphml>"],
            [">>graph6<<"], [">>sparse6<<"], [">>sparse6<<:"], ["D?"],
            ["~"], ["~?"], [":~?"], [">>graph6<<D? "], ["D???"],
            ["D>?"], ["D?>"], ["D?\x7f"], ["\x7f?"], ["D?\xe9"],
            [">>graph6<<D?\x7f"], [">>sparse6<<:A\x7f"], [">>sparse6<<A_"],
        )))
        self.file = sim.flag()

    def describe(self):
        return repr(self.lines)

    def fingerprint(self):
        return freeze(self.lines)

    def body(self, cx):
        M = cx.L.read_undirected_graph
        expect(M.GraphFormatError,
               lambda: M.readUndirectedGraph(
                   Source(self.lines) if self.file else list(self.lines)),
               "malformed %r" % (self.lines,))
        yield


class NothingToRead(Case):
    def __init__(self, sim):
        self.arg = sim.pick(([], [""], "", ["", ""]))
        self.file = sim.flag()

    def describe(self):
        return repr(self.arg)

    def fingerprint(self):
        return freeze(self.arg)

    def body(self, cx):
        M = cx.L.read_undirected_graph
        arg = Source([x for x in self.arg]) if self.file else self.arg
        check(M.readUndirectedGraph(arg) == {}, "nothing read as something")
        yield


# -- drawings ---------------------------------------------------------------------------

class Pipe(Exception):
    pass


class Paper(io.TextIOBase):
    """A text sink that may fail at a planned write."""

    def __init__(self, fail=None):
        self.text, self.calls, self.fail = "", 0, fail

    def write(self, s):
        touch("write")
        self.calls += 1
        if self.fail is not None and self.calls > self.fail:
            raise Pipe()
        self.text += s
        return len(s)


def coord(x):
    return round(x, 4) + 0.0


class Drawing(Case):
    """A drawing made of nested groups, with sinks that fail."""

    def __init__(self, sim):
        def num():
            return sim.pick((0, 1, 10, 2.5, -3, 100, 0.12345, 1e-6, 250.5,
                             -0.00001, 33.3333, 12345.678, -70000.25))

        def pt():
            return complex(num(), num())

        def sty():
            keys = sim.subset(["fill", "stroke", "width"])
            return {k: sim.pick(("none", "#BC1E46", "2")) for k in keys}
        self.bbox = complex(abs(num()) + 1, abs(num()) + 1)
        self.standalone = sim.flag()
        self.prefix = sim.pick((None, "s", ""))
        self.indent = sim.choose(4)
        self.plan = []
        depth = 0
        for _ in range(sim.choose(8)):
            op = sim.pick(("circle", "rectangle", "polygon", "segment",
                           "arc", "text", "group", "ungroup"))
            if op == "ungroup":
                if not depth:
                    continue
                depth -= 1
                self.plan.append((op, (), {}, {}))
                continue
            args = {"circle": lambda: (pt(), abs(num())),
                    "rectangle": lambda: (pt(), pt()),
                    "polygon": lambda: ([pt() for _ in
                                         range(sim.choose(4))],),
                    "segment": lambda: (pt(), pt()),
                    "arc": lambda: (pt(), pt(), num(), sim.flag()),
                    "text": lambda: (sim.pick(("a", "two words", "&lt;")),
                                     pt()),
                    "group": lambda: ()}[op]()
            if op == "group":
                depth += 1
            self.plan.append((op, args, sty(), sty()))
        self.leave = depth and sim.flag(1, 3)
        if not self.leave:
            self.plan += [("ungroup", (), {}, {})] * depth
        self.fail = sim.choose(12) if sim.flag() else None

    def describe(self):
        return "%r fail=%s" % (self.plan, self.fail)

    def fingerprint(self):
        return freeze(self.plan)

    def draw(self, cx, paper):
        D = cx.L.svg.SVG(self.bbox, paper, self.standalone, self.prefix,
                         self.indent)
        yield
        for op, args, style, more in self.plan:
            if op == "ungroup":
                D.ungroup()
            else:
                getattr(D, op)(*args, style=style, **more)
            yield
        if not self.leave:
            D.close()
            return
        try:
            D.close()
        except Exception as e:
            if type(e) is not Exception:
                raise
            return
        wrong("closed with an open group")

    def body(self, cx):
        paper = Paper()
        yield from self.draw(cx, paper)
        if not self.leave:
            self.examine(paper.text)
        check(paper.text.startswith("<?xml ") == self.standalone,
              "start of the drawing")
        P = cx.L.svg.colors
        check((P.none, P.white, P.black) == ("none", "#FFFFFF", "#000000")
              and len({P.white, P.black, P.red, P.blue, P.green, P.yellow,
                       P.magenta}) == 7, "colours")
        for line in paper.text.split("\n")[3 * self.standalone:]:
            check(not line or line.startswith(" " * self.indent),
                  "line %r is not indented" % line)
        yield
        if self.fail is not None:
            other = Paper(self.fail)
            try:
                for _ in self.draw(cx, other):
                    yield
            except Pipe:
                E.recovered("write-error")
            else:
                check(other.calls <= self.fail, "a write error was swallowed")
            check(paper.text.startswith(other.text),
                  "output before the failure differs")

    def events(self, text):
        out = []
        p = xml.parsers.expat.ParserCreate()
        p.buffer_text = True
        p.StartElementHandler = lambda n, a: out.append(["+", n, dict(a)])
        p.EndElementHandler = lambda n: out.append(["-", n])
        p.CharacterDataHandler = \
            lambda d: d.strip() and out.append(["t", d])
        try:
            p.Parse(text, True)
        except xml.parsers.expat.ExpatError as e:
            wrong("the drawing is not well-formed: %s" % e)
        return out

    def examine(self, text):
        pre = self.prefix + ":" if self.prefix else ""
        got = self.events(text)
        want = []

        def start(name, attrs, style, more):
            s = dict(style)
            s.update(more)
            want.append(["+", pre + name, attrs, s])

        want.append(["+", pre + "svg",
                     {"width": self.bbox.real, "height": self.bbox.imag,
                      "viewBox": [0, 0, self.bbox.real, self.bbox.imag],
                      "xmlns": None, "version": None}, {}])
        for op, args, style, more in self.plan:
            if op == "ungroup":
                want.append(["-", pre + "g"])
                continue
            if op == "group":
                start("g", {}, style, more)
                continue
            if op == "circle":
                c, r = args
                name, at = "circle", {"cx": c.real, "cy": c.imag, "r": r}
            elif op == "rectangle":
                p, q = args
                name = "rect"
                at = {"x": min(p.real, q.real), "y": min(p.imag, q.imag),
                      "width": abs(p.real - q.real),
                      "height": abs(p.imag - q.imag)}
            elif op == "polygon":
                name = "polygon"
                at = {"points": [x for p in args[0]
                                 for x in (p.real, p.imag)]}
            elif op == "segment":
                p, q = args
                name, at = "line", {"x1": p.real, "y1": p.imag,
                                    "x2": q.real, "y2": q.imag}
            elif op == "arc":
                p, q, r, large = args
                name = "path"
                at = {"d": [p.real, p.imag, abs(r), abs(r), 0, int(large), 0,
                            q.real, q.imag]}
            else:
                label, p = args
                name, at = "text", {"x": p.real, "y": p.imag}
            start(name, at, style, more)
            if op == "text":
                want.append(["t", label.replace("&lt;", "<")])
            want.append(["-", pre + name])
        want.append(["-", pre + "svg"])
        check(len(got) == len(want), "%d events, not %d"
              % (len(got), len(want)))
        for g, w in zip(got, want):
            check(g[:2] == w[:2], "%r instead of %r" % (g, w))
            if g[0] == "+":
                self.attributes(g[2], w[2], w[3])

    def attributes(self, got, want, style):
        text = got.pop("style", "")
        have = {}
        for item in text.split(";"):
            if item.strip():
                k, _, v = item.partition(":")
                have[k.strip()] = v.strip()
        check(have == style, "style %r instead of %r" % (have, style))
        check(set(got) == set(want), "attributes %r instead of %r"
              % (got, want))
        for k in want:
            if want[k] is None:
                continue
            nums = [float(x) for x in
                    got[k].replace(",", " ").replace("M", " ")
                    .replace("A", " ").split()]
            exp = want[k] if isinstance(want[k], list) else [want[k]]
            check(len(nums) == len(exp) and
                  all([abs(a - b) < 1e-4 for a, b in zip(nums, exp)]),
                  "%s is %s instead of %s" % (k, nums, exp))
