"""Sudoku grids: the solver must neither lose nor invent solutions."""

import io
import re
import sys
from xml.etree import ElementTree

from ..engine import E, run_program, touch
from ..env import freeze
from ..scenario import Case, check, expect, wrong
from .hard import HARD, STUCK

FULL = (1 << 9) - 1
PEERS = []
for _c in range(81):
    _r, _k = divmod(_c, 9)
    PEERS.append([d for d in range(81) if d != _c and
                  (d // 9 == _r or d % 9 == _k or
                   (d // 27 == _c // 27 and d % 9 // 3 == _k // 3))])


def solutions(cells, cap, marks=None):
    """Up to cap completed grids, by plain search; marks may bound the digits
    of each cell."""
    allowed = list(marks) if marks else [FULL] * 81
    for c, d in enumerate(cells):
        if d:
            for p in PEERS[c]:
                if cells[p] == d:
                    return []
                allowed[p] &= ~(1 << (d - 1))
    out = []
    work = list(cells)

    def go(allowed):
        best, opts = None, None
        for c in range(81):
            if not work[c]:
                n = bin(allowed[c]).count("1")
                if best is None or n < opts:
                    best, opts = c, n
                    if n <= 1:
                        break
        if best is None:
            out.append(tuple(work))
            return
        m = allowed[best]
        while m and len(out) < cap:
            b = m & -m
            m ^= b
            work[best] = b.bit_length()
            nxt = list(allowed)
            for p in PEERS[best]:
                nxt[p] &= ~b
            go(nxt)
            work[best] = 0
    go(allowed)
    return out


def random_grid(sim):
    """A completed grid: the pattern grid, shuffled."""
    def lines():
        return [3 * b + i for b in sim.shuffled([0, 1, 2])
                for i in sim.shuffled([0, 1, 2])]
    rows, cols = lines(), lines()
    digs = sim.shuffled(list(range(1, 10)))
    g = [digs[(3 * (r % 3) + r // 3 + c) % 9] for r in rows for c in cols]
    for _ in range(sim.choose(20)):
        # exchange two lines of a band along one cycle of their digits
        a = 3 * sim.choose(3)
        a, b = a + sim.choose(3), a + sim.choose(3)
        one, two = (([9 * x + i for i in range(9)] for x in (a, b))
                    if sim.flag() else
                    ([9 * i + x for i in range(9)] for x in (a, b)))
        at = {g[c]: i for i, c in enumerate(one)}
        i = start = sim.choose(9)
        while a != b:
            g[one[i]], g[two[i]] = g[two[i]], g[one[i]]
            i = at[g[one[i]]]
            if i == start:
                break
    return g


def hard_puzzle(sim, stuck=1):
    """A known puzzle in disguise, now and then with a clue more."""
    known = [int(ch) for ch in sim.pick(STUCK if sim.flag(stuck, 4) else HARD)]

    def lines():
        return [3 * b + i for b in sim.shuffled([0, 1, 2])
                for i in sim.shuffled([0, 1, 2])]
    rows, cols = lines(), lines()
    digs = [0] + sim.shuffled(list(range(1, 10)))
    flip = sim.flag()
    cells = [digs[known[9 * c + r] if flip else known[9 * r + c]]
             for r in rows for c in cols]
    if sim.flag(1, 4):
        full = solutions(cells, 1)[0]
        blank = [c for c in range(81) if not cells[c]]
        for _ in range(1 + sim.choose(3)):
            c = sim.pick(blank)
            cells[c] = full[c]
    return cells


def puzzle(sim, blanks, cap):
    """Clear cells, keeping the number of solutions below the cap."""
    cells = random_grid(sim)
    for c in sim.shuffled(list(range(81)))[:blanks]:
        old = cells[c]
        cells[c] = 0
        if len(solutions(cells, cap + 1)) > cap:
            cells[c] = old
    return cells


def mirrored(cells):
    """The puzzle with clues added until they lie symmetrically."""
    full = solutions(cells, 1)[0]
    return [cells[c] or (full[c] if cells[80 - c] else 0)
            for c in range(81)]


def spoil(sim, cells):
    """Fill in a digit that breaks no rule by itself."""
    c = sim.pick([c for c in range(81) if not cells[c]])
    used = {cells[p] for p in PEERS[c]}
    cells[c] = sim.pick([d for d in range(1, 10) if d not in used])


class LogError(Exception):
    pass


class Log(io.TextIOBase):
    def __init__(self, fail=None):
        self.lines, self.calls, self.fail = [], 0, fail

    def write(self, s):
        touch("log")
        self.calls += 1
        if self.fail is not None and self.calls == self.fail + 1:
            raise LogError()
        self.lines.append(s)
        return len(s)


class Solve(Case):
    """Solving step by step, checked after every step."""

    budget = 40000000

    def __init__(self, sim):
        self.unique = sim.flag()
        cap = 1 if self.unique else sim.pick((1, 2, 6))
        if sim.flag():
            self.cells = hard_puzzle(sim)
        else:
            self.cells = puzzle(sim, 20 + sim.choose(40), cap)
        self.twosat = sim.flag(1, 3)
        self.quick = sim.flag(1, 4)
        self.verbose = sim.flag(1, 2)
        self.fail = sim.choose(20) if sim.flag(1, 3) else None
        self.pairs = sim.flag(1, 3)
        if sim.flag(1, 8):
            spoil(sim, self.cells)
        self.sols = solutions(self.cells, 50)

    def describe(self):
        return "%s unique=%s twosat=%s quick=%s verbose=%s fail=%s" % (
            "".join(map(str, self.cells)), self.unique, self.twosat,
            self.quick, self.verbose, self.fail)

    def fingerprint(self):
        return freeze(self.cells)

    def grid(self, S):
        if self.pairs:
            return S.Sudoku([(d, c) for c, d in enumerate(self.cells) if d])
        return S.Sudoku(self.cells)

    def sound(self, G):
        for c in range(81):
            ch = G.choices(c)
            for sol in self.sols:
                check(sol[c] in ch, "digit %d was excluded from cell %d"
                      % (sol[c], c))
            if G.contents[c]:
                check(all([sol[c] == G.contents[c] for sol in self.sols]),
                      "wrong digit in cell %d" % c)

    def told(self, G):
        """What the log says is what was done."""
        said = " ".join("".join(G.logstream.lines).split())
        placed = {(int(d), 9 * int(r) + int(c) - 10) for d, r, c in
                  re.findall(r"Placing (\d) in R(\d)C(\d)\.", said)}
        check(placed == {(G.contents[c], c) for c in range(81)
                         if G.contents[c] and not self.cells[c]},
              "the placements reported are not those made")
        barred = {(int(d), 9 * int(r) + int(c) - 10)
                  for d, cells in re.findall(
                      r"Preventing (\d) from being placed in ([^.]*)\.",
                      said)
                  for r, c in re.findall(r"R(\d)C(\d)", cells)}
        for c in range(81):
            for d in range(1, 10):
                ok = d == G.contents[c] if G.contents[c] else \
                    all([G.contents[p] != d for p in PEERS[c]])
                check((d in G.choices(c)) == (ok and (d, c) not in barred),
                      "exclusion of %d from cell %d" % (d, c))

    def body(self, cx):
        S = cx.L.sudoku
        G = self.grid(S)
        G.assume_unique = self.unique
        G.twosat = self.twosat
        if self.verbose:
            G.logstream = Log(self.fail)
        self.sound(G)
        yield
        n = 0
        while True:
            try:
                more = S.step(G, self.quick)
            except LogError:
                E.recovered("write-error")
                self.sound(G)
                continue
            except S.BadSudoku:
                check(not self.sols, "a puzzle with solutions was refused")
                return
            self.sound(G)
            yield
            n += 1
            check(n < 1000, "the solver never finishes")
            if not more:
                break
        check(list(G) == list(G.contents), "listing a grid")
        if self.verbose and self.fail is None:
            self.told(G)
        check(G.complete() == all(G.contents), "completeness")
        if len(self.sols) != 1:
            check(not G.complete(), "a puzzle with %d solutions was "
                  "completed" % len(self.sols))


class Marks(Case):
    """Single rules, applied to grids whose cells have some digits left."""

    budget = 40000000

    def __init__(self, sim):
        self.unique = sim.flag(1, 3)
        if self.unique:
            self.cells = hard_puzzle(sim) if sim.flag() \
                else puzzle(sim, 30 + sim.choose(30), 1)
            goal = solutions(self.cells, 1)[0]
        else:
            goal = random_grid(sim)
            given = sim.pick((0, 5, 20))
            self.cells = [d if sim.choose(81) < given else 0 for d in goal]
        keep = sim.pick((1, 2, 3, 5))
        self.marks = []
        if not self.unique and sim.flag(2, 3):
            # several solutions laid over each other, with a few gaps
            self.cells = [0] * 81
            self.marks = [1 << d - 1 for d in goal]
            n = 3 + sim.choose(3)
            gaps = 5 + sim.choose(10 * n - 20)
            for _ in range(n):
                g = random_grid(sim)
                for c in range(81):
                    if sim.choose(100) >= gaps:
                        self.marks[c] |= 1 << g[c] - 1
            self.finish(sim, goal)
            return
        for c in range(81):
            m = 1 << goal[c] - 1
            if not self.cells[c]:
                for d in range(9):
                    if sim.choose(12) < keep:
                        m |= 1 << d
            self.marks.append(m)
        if sim.flag(1, 3):
            # most cells are left two digits
            for c in range(81):
                if not self.cells[c] and sim.flag(3, 4):
                    self.marks[c] = 1 << goal[c] - 1 | 1 << sim.choose(9)
        self.finish(sim, goal)

    def finish(self, sim, goal):
        self.sols = [goal] if self.unique else \
            solutions(self.cells, 12, self.marks)
        if tuple(goal) not in self.sols:
            self.sols.append(tuple(goal))
        self.last = [min(sim.choose(20), 14) for _ in range(4)]
        self.verbose = sim.flag()

    def describe(self):
        return "%s %r last=%r" % ("".join(map(str, self.cells)),
                                  self.marks, self.last)

    def fingerprint(self):
        return freeze([self.cells, self.marks])

    sound = Solve.sound
    told = Solve.told

    def body(self, cx):
        S = cx.L.sudoku
        G = S.Sudoku(self.cells)
        if self.verbose:
            G.logstream = Log()
        for d in range(9):
            G.unplace(d + 1, sum([1 << c for c in range(81)
                                  if not self.marks[c] >> d & 1]))
        G.assume_unique = self.unique
        G.twosat = True
        self.sound(G)
        rules = [r[1] for r in S.rules]
        names = [r[0] for r in S.rules]
        for i in self.last:
            # later rules use what these have gathered, the last one needs
            # all lone digits placed
            basis = ["pair", "bilocal", "bivalue"]
            if names[i % len(names)] == "twosat":
                basis = ["locate", "eliminate"] + basis
            basis = [rules[names.index(x)] for x in basis]
            todo = list(basis)
            while todo:
                G.progress = False
                todo.pop(0)(G)
                self.sound(G)
                if G.progress:
                    todo = list(basis)
            yield
            rules[i % len(rules)](G)
            self.sound(G)
            yield
        if self.verbose:
            self.told(G)


class AllSolutions(Case):
    budget = 60000000

    def __init__(self, sim):
        cap = sim.pick((1, 2, 5, 12, 30))
        self.first = 0
        if sim.flag(1, 8):
            # a few of very many solutions
            clues = sim.pick((0, 1, 4, 10, 17))
            self.cells = [d if sim.choose(81) < clues else 0
                          for d in random_grid(sim)]
            self.first = 1 + sim.choose(3)
            self.fast, self.out, self.sols = True, [], []
            return
        self.cells = puzzle(sim, 25 + sim.choose(35), cap)
        self.bad = sim.flag(1, 6)
        if self.bad:
            spoil(sim, self.cells)
        self.fast = sim.flag(2, 3)
        # digits the caller rules out beforehand
        self.out = []
        sols = solutions(self.cells, 50)
        if sols and sim.flag():
            blank = [c for c in range(81) if not self.cells[c]]
            open_ = [c for c in blank if len({s[c] for s in sols}) > 2]
            for _ in range(1 + sim.choose(3)):
                c = sim.pick(open_ or blank)
                self.out.append((sim.pick(sols)[c], c))
        self.sols = [s for s in sols
                     if all([s[c] != d for d, c in self.out])]

    def describe(self):
        return "%s fast=%s without %r, %d solutions" % (
            "".join(map(str, self.cells)), self.fast, self.out,
            len(self.sols))

    def grid(self, S):
        G = S.Sudoku(self.cells)
        for d, c in self.out:
            G.unplace(d, 1 << c)
        return G

    def fingerprint(self):
        return freeze(self.cells)

    def body(self, cx):
        S = cx.L.sudoku
        got = []
        if self.first:
            for G in S.all_solutions(self.grid(S), self.fast):
                g = list(G)
                check(all(g) and all([d in (0, g[c]) for c, d in
                                      enumerate(self.cells)]) and
                      all([g[c] != g[p] for c in range(81)
                           for p in PEERS[c]]), "solution %r" % g)
                got.append(tuple(g))
                if len(got) == self.first:
                    break
                yield
            check(len(set(got)) == len(got) == self.first or
                  len(got) == len(solutions(self.cells, self.first)),
                  "first solutions: %r" % (got,))
            return
        for G in S.all_solutions(self.grid(S), self.fast):
            got.append(tuple(G))
            yield
        check(len(set(got)) == len(got), "a solution is listed twice")
        check(sorted(got) == sorted(self.sols), "%d solutions instead of %d"
              % (len(got), len(self.sols)))
        check(S.unisolvent(self.grid(S)) == (len(self.sols) == 1),
              "unisolvent")


class Grids(Case):
    """Placing by hand, with placements that must be refused."""

    def __init__(self, sim):
        self.goal = random_grid(sim)
        self.ops = [(sim.choose(81), sim.choose(12))
                    for _ in range(sim.choose(25))]

    def describe(self):
        return repr(self.ops)

    def fingerprint(self):
        return freeze(self.goal)

    def body(self, cx):
        S = cx.L.sudoku
        G = S.Sudoku()
        cells = [0] * 81
        for c, k in self.ops:
            d = self.goal[c] if k < 8 else k - 3 if k < 11 else 10
            if d == 10:
                expect(ValueError, lambda: G.place(10, c), "digit 10")
                E.recovered("rejected-operation")
            elif cells[c] == d:
                G.place(d, c)
            elif cells[c] or any([cells[p] == d for p in PEERS[c]]):
                expect(S.BadSudoku, lambda: G.place(d, c), "clash")
                E.recovered("rejected-operation")
            else:
                G.place(d, c)
                cells[c] = d
            check(list(G) == cells, "contents")
            for x in range(81):
                want = [cells[x]] if cells[x] else \
                    [e for e in range(1, 10)
                     if all([cells[p] != e for p in PEERS[x]])]
                check(G.choices(x) == want, "choices of cell %d" % x)
            yield


class Permuted(Case):
    budget = 20000000

    def __init__(self, sim):
        self.cells = puzzle(sim, 10 + sim.choose(30), 6)
        self.sym = sim.flag()
        if sim.flag(2, 3):
            self.cells = mirrored(self.cells)
        self.sols = solutions(self.cells, 50)

    def describe(self):
        return "".join(map(str, self.cells))

    def fingerprint(self):
        return freeze(self.cells)

    def body(self, cx):
        S = cx.L.sudoku
        P = S.permute(S.Sudoku(self.cells), self.sym)
        new = list(P)
        check(sorted([new.count(d) for d in range(1, 10)]) ==
              sorted([self.cells.count(d) for d in range(1, 10)]),
              "digits of the permuted puzzle")
        check(len(solutions(new, 50)) == len(self.sols),
              "the permuted puzzle has another number of solutions")
        filled = {c for c in range(81) if self.cells[c]}
        if self.sym and all([80 - c in filled for c in filled]):
            check(all([new[80 - c] for c in range(81) if new[c]]),
                  "symmetry lost")
        yield


class Console(io.TextIOBase):
    """Standard input and output for the time of one call."""

    def __init__(self, text="", fail=None):
        self.text, self.out, self.fail, self.calls = text, [], fail, 0

    def read(self, size=-1):
        touch("read")
        if self.fail == "read":
            raise LogError()
        k = len(self.text) if size is None or size < 0 else size
        got, self.text = self.text[:k], self.text[k:]
        return got

    def readline(self, size=-1):
        return self.read(self.text.find("\n") + 1 or -1)

    def write(self, s):
        touch("write")
        self.calls += 1
        if self.calls - 1 == self.fail:
            raise LogError()
        self.out.append(s)
        return len(s)

    def call(self, fn, *a):
        old = sys.stdin, sys.stdout
        sys.stdin = sys.stdout = self
        try:
            return fn(*a)
        finally:
            sys.stdin, sys.stdout = old


def shown(kind, text):
    """The 81 cells a printed puzzle shows."""
    if kind == "text":
        return [0 if ch == "." else int(ch)
                for ch in text if ch == "." or ch.isdigit()]
    if kind == "numeric":
        rows = text.split()
        check(len(rows) == 9 and all([len(r) == 9 for r in rows]), "rows")
        return [int(ch) for ch in "".join(rows)]
    if kind == "html":
        cells = re.findall(r"<td width=30[^>]*>(\d?)", text)
        check(len(cells) == 81, "%d cells in the table" % len(cells))
        out = [0] * 81
        for k, d in enumerate(cells):
            a, b, c, e = k // 27, k // 9 % 3, k // 3 % 3, k % 3
            out[9 * (3 * a + c) + 3 * b + e] = int(d or 0)
        return out
    out = [0] * 81
    root = ElementTree.fromstring(text)
    for t in root.iter():
        if t.tag.endswith("text"):
            x, y = float(t.get("x")), float(t.get("y"))
            c = 9 * int((y - 2) // 30) + int((x - 2) // 30)
            check(not out[c], "two digits in cell %d" % c)
            out[c] = int(t.text)
    return out


class Console9x9(Case):
    """Reading a puzzle from text and printing it in every format."""

    budget = 3000000
    modes = ("solo", "coop")        # standard streams belong to the process

    def __init__(self, sim):
        self.cells = random_grid(sim)
        keep = sim.choose(9)
        for c in range(81):
            if not sim.flag(keep, 8):
                self.cells[c] = 0
        self.empty = sim.pick((".0", "_", "*0 .", "x"))
        blanks = self.empty.replace(" ", "")
        junk = sim.pick(("\n", "", "|", " - \n", "\u0663", "\u00b2\r\n",
                         "abc", "+\t+"))
        if self.empty == "x":
            junk += "0."            # say nothing here
        if " " in self.empty:
            junk = junk.replace(" ", "")
        parts = []
        for c, d in enumerate(self.cells):
            parts.append(str(d) if d else sim.pick(blanks))
            if c % 9 == 8 or sim.flag(1, 9):
                parts.append(junk)
        self.text = "".join(parts)
        self.kind = sim.pick(("text", "numeric", "html", "svg"))
        self.short = sim.flag(1, 3)
        self.byhand = sim.flag(1, 3)
        self.fail = sim.pick((0, 1, 5, 30, "read")) if sim.flag(1, 3) \
            else None

    def describe(self):
        return "%r empty=%r %s fail=%r" % (self.text, self.empty, self.kind,
                                           self.fail)

    def body(self, cx):
        S = cx.L.sudoku
        args = () if self.empty == ".0" else (self.empty,)
        if self.fail is not None:
            con = Console(self.text, self.fail)
            try:
                G = con.call(S.read_puzzle, *args)
                con.calls = 0
                con.call(S.output_formats[self.kind], G)
                check(self.fail != "read" and con.calls <= self.fail,
                      "failed input or output went unnoticed")
            except LogError:
                E.recovered("write-error")
        yield
        G = Console(self.text).call(S.read_puzzle, *args)
        check(list(G) == self.cells, "puzzle read")
        yield
        if self.byhand:
            G = S.Sudoku()
            for c in range(80, -1, -1):
                if self.cells[c]:
                    G.place(self.cells[c], c)
        con = Console()
        name = self.kind[0] if self.short else self.kind
        con.call(S.output_formats[name], G)
        got = shown(self.kind, "".join(con.out))
        check(got == self.cells, "printed puzzle shows %r" % (got,))
        check(list(G) == self.cells, "printing changed the puzzle")


LEVELS = ("easy", "moderate", "tricky", "difficult", "evil", "fiendish",
          "impossible")


class Program(Case):
    """The puzzle program, from its options to what it prints."""

    budget = 60000000
    modes = ("solo", "coop")        # standard streams belong to the process

    def __init__(self, sim):
        self.task = sim.pick(("solve", "solve", "translate", "blank",
                              "usage"))
        cap = sim.pick((1, 1, 1, 4))
        hard = self.task == "solve" and sim.flag()
        if hard:
            self.cells = hard_puzzle(sim, 2)
        else:
            self.cells = puzzle(sim, 20 + sim.choose(40), cap)
        self.none = sim.flag(1, 8)
        if self.none:
            spoil(sim, self.cells)
        self.permute = self.task == "translate" and sim.flag(1, 3)
        if self.permute and not self.none and sim.flag(2, 3):
            self.cells = mirrored(self.cells)
        self.sols = solutions(self.cells, 50)
        self.kind = sim.pick(("text", "numeric", "html", "svg",
                              "text", "numeric"))
        self.both = sim.flag(1, 3)
        self.search = len(self.sols) != 1 or sim.flag(1 + hard, 3)
        opts = []
        if self.kind != "text" or sim.flag():
            f = self.kind if sim.flag() else self.kind[0]
            opts += ["-f", f.upper() if sim.flag(1, 4) else f]
        if self.search:
            opts.append("-b")
        if len(self.sols) != 1 or sim.flag():
            opts.append("-u")
        if sim.flag(1, 4):
            opts.append("-s")
        if self.both:
            opts.append(sim.pick(("-2", "--output-both")))
        if self.permute:
            opts.append("-p")
            if sim.flag(1, 4):
                opts.append("-a")
        self.verbose = sim.flag(1 + self.search, 4)
        if self.verbose:
            opts.append("-v")
        empty = ".0"
        if sim.flag(1, 4):
            empty = "_"
            opts += ["-x", "_"]
        if self.task == "translate":
            opts.append("-t")
        elif self.task == "blank":
            opts.append("-0")
        elif self.task == "usage":
            opts.append(sim.pick(("-r", "-l", "stray", "-f", "-tg")))
            if opts[-1] == "-f":
                opts.append("poem")
        self.opts = opts
        self.text = "\n".join(["".join([str(d) if d else sim.pick(empty)
                                        for d in self.cells[9 * r:9 * r + 9]])
                               for r in range(9)]) + "\n"
        self.fail = sim.pick((0, 1, 3, 12, 40, "read")) if sim.flag(1, 3) \
            else None

    def describe(self):
        return "%r %s, %d solutions, fail=%r" % (
            self.opts, self.text.split(), len(self.sols), self.fail)

    def run(self, cx, con, log):
        old = sys.argv, sys.stdin, sys.stdout, sys.stderr
        sys.argv = ["sudoku"] + self.opts
        sys.stdin = sys.stdout = con
        sys.stderr = log
        try:
            run_program("sudoku")
        except SystemExit as e:
            return e.code
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        return "end"

    def body(self, cx):
        S = cx.L.sudoku
        if self.fail is not None:
            con = Console(self.text, self.fail)
            try:
                self.run(cx, con, Log())
            except LogError:
                E.recovered("write-error")
            except Exception as e:
                # the class belongs to the program, not to a module
                if type(e).__name__ != "BadSudoku":
                    raise
            else:
                check(self.task in ("blank", "usage")
                      if self.fail == "read" else con.calls <= self.fail,
                      "a failed stream went unnoticed")
            yield
        con, log = Console(self.text), Log()
        try:
            end = self.run(cx, con, log)
        except Exception as e:
            if type(e).__name__ != "BadSudoku" or self.sols:
                raise
            check(not self.search, "listing solutions failed")
            return
        yield
        out = "".join(con.out)
        if self.task == "usage":
            check(end == 0, "usage ends with %r" % (end,))
            if "-r" in self.opts:
                for name, rule, level in S.rules:
                    check(name + ":" in out, "rule %s is not shown" % name)
            check(out.strip(), "nothing was said")
            return
        if self.task == "blank":
            check(end == 0 and shown(self.kind, out) == [0] * 81,
                  "blank grid")
            return
        check(end == "end", "ended with %r" % (end,))
        check(bool(log.lines) == self.verbose, "description of steps")
        grids, rest = self.printed(out)
        if self.task == "translate" or self.both:
            check(grids, "the puzzle is not shown")
            first = grids.pop(0)
            if self.permute:
                check(sorted([first.count(d) for d in range(1, 10)]) ==
                      sorted([self.cells.count(d) for d in range(1, 10)]) and
                      len(solutions(first, 50)) == len(self.sols),
                      "permuted puzzle")
                if "-a" not in self.opts and \
                        all([self.cells[80 - c] for c in range(81)
                             if self.cells[c]]):
                    check(all([first[80 - c] for c in range(81) if first[c]]),
                          "symmetry lost")
            else:
                check(first == self.cells, "puzzle shown as %r" % (first,))
        if self.task == "translate" and not self.both:
            check(not grids, "more than the puzzle is shown")
        elif self.search:
            check(len(grids) == len(self.sols), "%d of %d solutions shown"
                  % (len(grids), len(self.sols)))
            if not self.permute:
                check(sorted(map(tuple, grids)) == sorted(self.sols),
                      "solutions shown")
        else:
            check(len(grids) == 1, "%d grids shown" % len(grids))
            if not self.permute:
                for c in range(81):
                    check(grids[0][c] in (0, self.sols[0][c]) and
                          (grids[0][c] or not self.cells[c]),
                          "cell %d shows %d" % (c, grids[0][c]))
        if self.kind in ("html", "svg") and rest is not out:
            check(not rest.strip(), "text after the picture: %r" % rest)
            return
        m = re.search(r"Level: (\w+)", rest)
        check(m and m.group(1) in LEVELS, "level in %r" % rest)
        if grids and self.task == "solve" and not self.search:
            check((m.group(1) == "impossible") == (0 in grids[0]),
                  "level %s of %r" % (m.group(1), grids[0]))
        if self.search:
            check((m.group(1) == "impossible") ==
                  (len(self.sols) != 1 or "backtrack" in rest),
                  "level %s in %r" % (m.group(1), rest))
            if len(self.sols) == 1 and not self.permute:
                G = S.Sudoku(self.cells)
                G.assume_unique = "-u" not in self.opts
                G.twosat = "-s" in self.opts
                while S.step(G):
                    pass
                check((m.group(1) == "impossible") == (0 in list(G)),
                      "level %s, completed to %r" % (m.group(1), list(G)))
        if self.verbose:
            # the rules named at the end are those that the log names
            log = " ".join("".join(log.lines).split())
            names = set(re.findall(r"application of the (\w+) rule", log))
            if "backtracking" in log:
                names.add("backtrack")
            told = re.search(r"Rules used:(.*)", out).group(1).strip()
            check(set(filter(None, told.split(", "))) == names,
                  "rules %s, but the log has %s" % (told, sorted(names)))
        m = re.search(r"Number of solutions: (\d+)", rest)
        if self.search:
            check((int(m.group(1)) if m else 1) == len(self.sols),
                  "number of solutions in %r" % rest)

    def printed(self, out):
        """Split the output into grids and what follows them."""
        grids = []
        if self.search and not self.sols and not self.both and \
                self.task == "solve":
            return [], out
        if self.kind == "text":
            head, _, rest = out.partition("\nRules used:")
            got = shown("text", head)
            grids = [got[i:i + 81] for i in range(0, len(got), 81)]
        elif self.kind == "numeric":
            head, _, rest = out.partition("\nRules used:")
            rows = head.split()
            for i in range(0, len(rows), 9):
                grids.append(shown("numeric", "\n".join(rows[i:i + 9])))
            if self.both:
                check(head.split("\n\n")[0].count("\n") == 8,
                      "puzzle and solution are not set apart")
        elif self.kind == "html":
            parts = out.split("<table border=1>")
            check(not parts[0].strip(), "text before the table")
            rest = ""
            for p in parts[1:]:
                body, _, rest = p.rpartition("</table>")
                grids.append(shown("html", body))
        else:
            parts = out.split("<?xml")
            check(not parts[0].strip(), "text before the drawing")
            rest = ""
            for p in parts[1:]:
                body, end, rest = p.rpartition("</svg>")
                grids.append(shown("svg", "<?xml" + body + end))
        return grids, rest


def judge_new(cells, sym):
    """Has a new puzzle one solution, and no clue too many?"""
    check(len(solutions(cells, 2)) == 1, "puzzle has not one solution")
    for c in range(81):
        if cells[c] and (not sym or c <= 40):
            less = list(cells)
            less[c] = 0
            if sym:
                less[80 - c] = 0
            check(len(solutions(less, 2)) == 2, "clue %d is redundant" % c)
    if sym:
        check(all([cells[80 - c] for c in range(81) if cells[c]]),
              "puzzle is not symmetric")


class Generated(Case):
    """A new puzzle has one solution and no clue too many."""

    budget = 400000000
    heavy = True

    def __init__(self, sim):
        self.sym = sim.flag()

    def describe(self):
        return "symmetric=%s" % self.sym

    def body(self, cx):
        S = cx.L.sudoku
        cells = list(S.random_puzzle(self.sym))
        yield
        judge_new(cells, self.sym)


class Generating(Program):
    """The program asked for a new puzzle."""

    budget = 400000000

    def __init__(self, sim):
        self.task = "generate"
        self.sols = [None]
        self.kind = sim.pick(("text", "numeric", "html", "svg"))
        self.both = sim.flag()
        self.search = sim.flag()
        self.sym = sim.flag()
        opts = ["-g", "-f", self.kind]
        if self.both:
            opts.append("-2")
        if self.search:
            opts.append("-b")
        if not self.sym:
            opts.append("-a")
        if sim.flag(1, 3):
            opts.append("-p")
        if sim.flag(1, 3):
            opts.append("-u")
        self.opts = opts
        self.fail = sim.choose(6) if sim.flag(1, 3) else None

    def describe(self):
        return "%r, fail=%r" % (self.opts, self.fail)

    def body(self, cx):
        con = Console("", self.fail)
        try:
            end = self.run(cx, con, Log())
        except LogError:
            E.recovered("write-error")
            return
        yield
        check(self.fail is None or con.calls <= self.fail,
              "a failed stream went unnoticed")
        check(end == "end", "ended with %r" % (end,))
        grids, rest = self.printed("".join(con.out))
        check(len(grids) == 1 + self.both, "%d grids shown" % len(grids))
        judge_new(grids[0], self.sym)
        answer = solutions(grids[0], 2)[0]
        if self.both:
            check(all([a == b or not a and not self.search
                       for a, b in zip(grids[1], answer)]), "solution shown")
        if self.kind in ("text", "numeric"):
            m = re.search(r"Level: (\w+)", rest)
            check(m and m.group(1) in LEVELS, "level in %r" % rest)
            check("Number of solutions" not in rest, "number of solutions")
