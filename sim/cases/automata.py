"""Regular languages: expressions, automata and their combinations."""

import io
from itertools import product

from ..engine import E, touch
from ..env import freeze, fresh, namer
from ..scenario import Case, check, expect

PLAIN = ["ab", "abc", "01", "x"]
ODD = ["a+", "*b", "()", "\\a", "+*", "a(", ")b", "\\)"]


def letter(c):
    return "\\" + c if c in "()*+\\" else c


def random_ast(sim, alphabet, depth):
    k = sim.choose(6 if depth else 2)
    if k == 0 or (k == 1 and not sim.flag(1, 3)):
        return ("sym", sim.pick(alphabet))
    if k == 1:
        return ("eps",)
    if k == 2:
        return ("star", random_ast(sim, alphabet, depth - 1))
    return ("cat" if k < 5 else "or", random_ast(sim, alphabet, depth - 1),
            random_ast(sim, alphabet, depth - 1))


def text(t, level=0):
    """An expression for the tree; level 0 sum, 1 term, 2 factor."""
    if t[0] == "sym":
        return letter(t[1])
    if t[0] == "eps":
        return "()"
    if t[0] == "star":
        return text(t[1], 2) + "*"
    if t[0] == "cat":
        s = text(t[1], 1) + text(t[2], 1)
        return "(" + s + ")" if level > 1 else s
    s = text(t[1], 0) + "+" + text(t[2], 0)
    return "(" + s + ")" if level > 0 else s


def letters(t):
    if t[0] == "sym":
        return {t[1]}
    return set().union(*[letters(x) for x in t[1:]])


def swapped(t, d):
    """The tree with other letters."""
    if t[0] == "sym":
        return "sym", d[t[1]]
    return t[:1] + tuple([swapped(x, d) for x in t[1:]])


class Machine:
    """A complete deterministic machine: row 0 is initial."""

    def __init__(self, alphabet, rows, final):
        self.alphabet, self.rows, self.final = alphabet, rows, final

    def run(self, word):
        s = 0
        for c in word:
            s = self.rows[s][c]
        return s in self.final

    def minimal(self):
        """Number of reachable, distinguishable states."""
        n = len(self.rows)
        cls = [int(i in self.final) for i in range(n)]
        while True:
            sig = [(cls[i],) + tuple([cls[self.rows[i][c]]
                                      for c in self.alphabet])
                   for i in range(n)]
            names = {}
            new = [names.setdefault(s, len(names)) for s in sig]
            if len(names) == len(set(cls)):
                return len(names)
            cls = new


def determinise(alphabet, start, step, final):
    """Subset construction over arbitrary nondeterministic rules."""
    index = {start: 0}
    todo = [start]
    rows = []
    for S in todo:
        row = {}
        for c in alphabet:
            T = frozenset([t for s in S for t in step(s, c)])
            if T not in index:
                index[T] = len(todo)
                todo.append(T)
            row[c] = index[T]
        rows.append(row)
    return Machine(alphabet, rows,
                   {i for i, S in enumerate(todo) if final(S)})


def machine(t, alphabet):
    """Reference machine of an expression, from positions."""
    pos = []
    follow = {}

    def build(t):
        if t[0] == "sym":
            pos.append(t[1])
            i = len(pos) - 1
            follow[i] = set()
            return {i}, {i}, False
        if t[0] == "eps":
            return set(), set(), True
        if t[0] == "star":
            f, l, _ = build(t[1])
            for i in l:
                follow[i] |= f
            return f, l, True
        f1, l1, e1 = build(t[1])
        f2, l2, e2 = build(t[2])
        if t[0] == "or":
            return f1 | f2, l1 | l2, e1 or e2
        for i in l1:
            follow[i] |= f2
        return (f1 | f2 if e1 else f1), (l1 | l2 if e2 else l2), e1 and e2
    f, l, e = build(t)

    def step(s, c):
        nxt = f if s == "start" else follow[s]
        return [j for j in nxt if pos[j] == c]
    return determinise(alphabet, frozenset(["start"]), step,
                       lambda S: any([s in l for s in S]) or
                       (e and "start" in S))


def combine(A, B, op):
    index = {(0, 0): 0}
    todo = [(0, 0)]
    rows = []
    for a, b in todo:
        row = {}
        for c in A.alphabet:
            t = A.rows[a][c], B.rows[b][c]
            if t not in index:
                index[t] = len(todo)
                todo.append(t)
            row[c] = index[t]
        rows.append(row)
    return Machine(A.alphabet, rows,
                   {i for i, (a, b) in enumerate(todo)
                    if op(a in A.final, b in B.final)})


def backwards(A):
    pre = {}
    for i, row in enumerate(A.rows):
        for c in row:
            pre.setdefault((row[c], c), []).append(i)
    return determinise(A.alphabet, frozenset(A.final),
                       lambda s, c: pre.get((s, c), ()),
                       lambda S: 0 in S)


def empty(A):
    return not A.final


def words(alphabet, n):
    for k in range(n + 1):
        for w in product(alphabet, repeat=k):
            yield w


class Word:
    """An input whose symbols arrive one at a time."""

    def __init__(self, w):
        self.w = w

    def __iter__(self):
        for c in self.w:
            touch("symbol")
            yield c


class Languages(Case):
    """Two expressions and a plan of operations on them."""

    budget = 4000000

    def __init__(self, sim):
        self.alphabet = sorted(sim.pick(ODD if sim.flag(1, 4) else PLAIN))
        self.depth = 1 + sim.choose(3)
        self.t = [self.tree(sim), self.tree(sim)]
        if sim.flag(1, 5):
            self.t[1] = self.t[0]
        self.texts = [text(t) for t in self.t]
        self.nwords = 3 if len(self.alphabet) > 2 else 4
        self.foreign = sim.flag(1, 4)
        # each derived machine: (how, index, index)
        self.plan = []
        for _ in range(1 + sim.choose(3)):
            n = 2 + len(self.plan)
            self.plan.append((sim.pick(("minimize", "complement", "reverse",
                                        "union", "intersection",
                                        "symmetricDifference", "renumber",
                                        "RegExp")),
                              n - 1 - sim.choose(n), n - 1 - sim.choose(n)))
        self.wseed = [[sim.pick(self.alphabet)
                       for _ in range(sim.choose(10))] for _ in range(3)]

    def tree(self, sim):
        t = random_ast(sim, self.alphabet, self.depth)
        for c in self.alphabet:
            if c not in letters(t):
                op = sim.choose(3)
                if op == 0:
                    t = ("or", t, ("sym", c))
                elif op == 1:
                    t = ("cat", ("star", ("sym", c)), t)
                else:
                    t = ("cat", t, ("star", ("sym", c)))
        return t

    def describe(self):
        return "%r %r" % (self.texts, self.plan)

    def fingerprint(self):
        return freeze(self.texts)

    def agree(self, A, R, what):
        """The automaton accepts just what the reference accepts."""
        L = A.language()
        for w in words(self.alphabet, self.nwords):
            check(bool(A(w)) == R.run(w), "%s: %r is judged wrongly"
                  % (what, "".join(w)))
        for w in self.wseed:
            check((Word(w) in L) == R.run(w), "%s: %r is judged wrongly"
                  % (what, "".join(w)))

    def body(self, cx):
        M = cx.L.automata
        auto, ref = [], []
        for t, s in zip(self.t, self.texts):
            A = M.RegExp(s)
            check(set(A.alphabet) == set(self.alphabet), "alphabet of %r" % s)
            auto.append(A)
            ref.append(machine(t, self.alphabet))
            self.agree(A, ref[-1], s)
            D = A.asDFA()
            check(D == M.RegExp(s).asDFA() and not D != A.asDFA() and
                  not D == s and not D == D.complement(), "equal machines")
            yield
        for how, i, j in self.plan:
            i, j = i % len(auto), j % len(auto)
            A, B = auto[i], auto[j]
            R, S = ref[i], ref[j]
            what = "%s of %d, %d" % (how, i, j)
            if how in ("union", "intersection", "symmetricDifference"):
                C = getattr(A, how)(B)
                T = combine(R, S, {"union": lambda a, b: a or b,
                                   "intersection": lambda a, b: a and b,
                                   "symmetricDifference":
                                   lambda a, b: a != b}[how])
            elif how == "RegExp":
                if empty(R):
                    e = A.RegExp()
                    check(not isinstance(e, str), "expression %r for the "
                          "empty language" % (e,))
                    continue
                e = A.minimize().RegExp() if len(A) > 6 else A.RegExp()
                check(isinstance(e, str), "%s is %r" % (what, e))
                if len(e) > 1500:
                    continue
                yield
                C, T = M.RegExp(e), R
                if set(C.alphabet) != set(self.alphabet):
                    # a letter that no word uses
                    for w in words(sorted(C.alphabet), self.nwords):
                        check(bool(C(w)) == R.run(w), "%s %s: %r is judged "
                              "wrongly" % (what, e, "".join(w)))
                    continue
            else:
                C = getattr(A, how)()
                if how == "minimize":
                    T = R
                    check(len(C) == R.minimal(), "%s has %d states, not %d"
                          % (what, len(C), R.minimal()))
                elif how == "complement":
                    T = Machine(R.alphabet, R.rows,
                                set(range(len(R.rows))) - R.final)
                elif how == "reverse":
                    T = backwards(R)
                else:
                    T = R
                    check(all([isinstance(x, int) for x in C.states()]),
                          "renumbered states")
            self.agree(C, T, what)
            auto.append(C)
            ref.append(T)
            yield
        yield from self.compare(cx, M, auto, ref)
        if self.foreign:
            bad = "?" if "?" not in self.alphabet else "!"
            for A in auto:
                expect(M.LanguageError, lambda: A([self.alphabet[0], bad]),
                       "foreign symbol")
            other = M.RegExp("?!")
            expect(M.LanguageError, lambda: auto[0].union(other),
                   "different alphabets")
            strange = {c: chr(0x3b1 + i) for i, c in enumerate(self.alphabet)}
            other = M.RegExp(text(swapped(self.t[0], strange)))
            for A, B in ((auto[0], other), (other, auto[0]),
                         (auto[0].complement(), other.complement())):
                check(not (A.language() == B.language()) and
                      A.language() != B.language(),
                      "languages over different alphabets are equal")

    def compare(self, cx, M, auto, ref):
        la, lb = [M.language(A) for A in auto[-2:]]
        ra, rb = ref[-2:]
        anotb = empty(combine(ra, rb, lambda a, b: a and not b))
        bnota = empty(combine(ra, rb, lambda a, b: b and not a))
        same = anotb and bnota
        for got, want, op in ((la == lb, same, "=="), (la != lb, not same, "!="),
                              (la <= lb, anotb, "<="), (la >= lb, bnota, ">="),
                              (la < lb, anotb and not bnota, "<"),
                              (la > lb, bnota and not anotb, ">")):
            check(bool(got) == want, "languages compare %s as %r" % (op, got))
            yield
        check(bool(la) == (not empty(ra)), "truth of a language")
        for odd in (5, None, self.texts[0], auto[-1]):
            check(not (la == odd) and la != odd, "a language equals %r"
                  % (odd,))
            for f in (lambda: la & odd, lambda: la | odd, lambda: la ^ odd):
                expect(M.LanguageError, f, "combined with no language")
        lt = M.RegularLanguage(self.texts[0])
        for w in self.wseed:
            check((Word(w) in lt) == ref[0].run(w), "language of %r on %r"
                  % (self.texts[0], "".join(w)))
        for got, T in ((~la, None), (la & lb, lambda a, b: a and b),
                       (la | lb, lambda a, b: a or b),
                       (la ^ lb, lambda a, b: a != b)):
            T = combine(ra, rb, T or (lambda a, b: not a))
            for w in self.wseed:
                check((w in got) == T.run(w), "combined language on %r"
                      % "".join(w))
        yield


class Table(Case):
    """Machines given as tables by the caller."""

    budget = 4000000

    def __init__(self, sim):
        self.n = 1 + sim.choose(9 if sim.flag(1, 20) else 5)
        self.textual = sim.flag(2, 3)
        self.alphabet = list("ab") if self.textual else namer(sim, 2)
        self.alphabet = self.alphabet[:1 + sim.choose(2)]
        self.names = namer(sim, self.n)
        self.init = sim.subset(self.names)
        self.final = sim.subset(self.names)
        self.tt = {(s, c): [fresh(t) for t in self.names
                            if sim.flag(1, 3 if self.n < 6 else self.n)]
                   for s in self.names for c in self.alphabet}
        self.marks = [sim.pick((True, 1, 2, "yes", 4)) for _ in range(2)]
        self.wseed = [[sim.pick(self.alphabet)
                       for _ in range(sim.choose(9))] for _ in range(4)]

    def describe(self):
        return "%r %r %r" % (self.init, self.tt, self.final)

    def fingerprint(self):
        return freeze([self.init, self.final, self.tt])

    def body(self, cx):
        M = cx.L.automata
        N = M.LookupNFA(set(self.alphabet), self.init, self.tt, self.final)
        R = determinise(self.alphabet, frozenset(self.init),
                        lambda s, c: self.tt[s, c],
                        lambda S: any([s in self.final for s in S]))
        for w in words(self.alphabet, 4):
            check(bool(N(w)) == R.run(w), "%r is judged wrongly" % (w,))
        yield
        live = set(self.init)
        todo = list(live)
        for s in todo:
            for c in self.alphabet:
                for t in self.tt[s, c]:
                    if t not in live:
                        live.add(t)
                        todo.append(t)
        got = list(N.states())
        check(set(got) == live and len(got) == len(live) == len(N),
              "states %r" % (got,))
        D = N.minimize()
        check(len(D) == R.minimal(), "minimised to %d states, not %d"
              % (len(D), R.minimal()))
        yield
        back = N.reverse().minimize()
        T = backwards(R)
        for A, X in ((D, R), (back, T), (D.complement().renumber(5), None)):
            for w in words(self.alphabet, 4):
                want = X.run(w) if X else not R.run(w)
                check(bool(A(w)) == want, "%r is judged wrongly" % (w,))
            yield
        check(len(back) == T.minimal(), "minimised reversal has %d states"
              % len(back))
        check((D == back) == empty(combine(R, T, lambda a, b: a != b)),
              "comparing minimal machines")
        check((D != back) == (not (D == back)), "comparing minimal machines")
        yield
        yield from self.own(cx, R, T)
        if not self.textual:
            return
        if not empty(R):
            e = D.RegExp()
            if len(e) < 1500:
                C = M.RegExp(e)
                for w in words(sorted(C.alphabet), 4):
                    check(bool(C(w)) == R.run(w), "%r: %r is judged wrongly"
                          % (e, w))
        else:
            check(not N.language(), "empty language")


    def own(self, cx, R, T):
        """Machines defined by the caller, with accepting marks of any kind."""
        class Own(cx.L.automata.DFA):
            def __init__(self, R, mark):
                self.R, self.mark = R, mark
                self.initial = 0
                self.alphabet = set(R.alphabet)

            def transition(self, state, symbol):
                touch("transition")
                return self.R.rows[state][symbol]

            def isfinal(self, state):
                touch("isfinal")
                return self.mark if state in self.R.final else None
        A, B = Own(R, self.marks[0]), Own(T, self.marks[1])
        for C, op in ((A.union(B), lambda a, b: a or b),
                      (A.intersection(B), lambda a, b: a and b),
                      (A.symmetricDifference(B), lambda a, b: a != b),
                      (A.complement(), lambda a, b: not a)):
            X = combine(R, T, op)
            for w in words(self.alphabet, 3):
                check(bool(C(w)) == X.run(w), "%r is judged wrongly by a "
                      "combination of the caller's machines" % (w,))
            check(len(C.minimize()) == X.minimal(), "minimised to %d states"
                  % len(C.minimize()))
            yield
        same = empty(combine(R, T, lambda a, b: a != b))
        check((A.language() == B.language()) == same, "comparing the "
              "languages of the caller's machines")


class Malformed(Case):
    """Expressions that are not expressions."""

    def __init__(self, sim):
        t = random_ast(sim, ["a", "b"], 2)
        s = text(t)
        k = sim.choose(3)
        if k == 0:
            self.s = s + "\\"
        elif k == 1:
            i = sim.choose(len(s) + 1)
            self.s = s[:i] + "(" + s[i:]
        else:
            i = sim.choose(len(s) + 1)
            self.s = s[:i] + ")" + s[i:]
        self.kind = k

    def describe(self):
        return repr(self.s)

    def fingerprint(self):
        return self.s

    def body(self, cx):
        M = cx.L.automata
        expect((M.LanguageError, M.RegExpError), lambda: M.RegExp(self.s),
               "malformed expression %r" % self.s)
        expect(M.LanguageError, lambda: M.RegularLanguage(17), "no language")
        yield


class BrokenPipe(Exception):
    pass


class Printing(Case):
    """A machine printed to a stream that may fail."""

    def __init__(self, sim):
        self.s = text(random_ast(sim, ["a", "b"], 2))
        self.fail = sim.choose(6) if sim.flag() else None
        self.deterministic = sim.flag(1, 3)

    def describe(self):
        return "%r failing at %s" % (self.s, self.fail)

    def fingerprint(self):
        return self.s

    def body(self, cx):
        M = cx.L.automata
        A = P = M.RegExp(self.s)
        if self.deterministic:
            P = A.minimize()
            A = P.asNFA()
        lines = 0
        for s in A.states():
            lines += 1
            for c in A.alphabet:
                lines += len(A.transition(s, c))
        out = Sink(None)
        P.pprint(out)
        check(out.text.count("\n") == lines, "%d lines printed, not %d"
              % (out.text.count("\n"), lines))
        check(out.text.count("initial") == len(A.initial), "initial states")
        check(out.text.count("accepting") ==
              len([s for s in A.states() if A.isfinal(s)]), "final states")
        yield
        if self.fail is not None:
            out2 = Sink(self.fail)
            try:
                P.pprint(out2)
            except BrokenPipe:
                E.recovered("caller-error")
            else:
                check(out2.calls <= self.fail, "write failure swallowed")
            check(out.text.startswith(out2.text), "output differs")
        yield


class Sink(io.TextIOBase):
    def __init__(self, fail):
        self.text, self.calls, self.fail = "", 0, fail

    def write(self, s):
        touch("write")
        self.calls += 1
        if self.fail is not None and self.calls > self.fail:
            raise BrokenPipe()
        self.text += s
        return len(s)
