"""One simulated run: draw a configuration, run clients, judge the outcome."""

import sys
import traceback

from . import engine
from .engine import E, Client, fresh_world
from .kernel import (HarnessError, Sim, SimBudget, SimStop, Violation)


class Case:
    """A workload: some calls of the library with an independent judge.

    Subclasses draw all their inputs in __init__ and none later, since body()
    is run several times in one simulated run: alone, interleaved with other
    clients, with a fault, and once more after the fault.
    """

    faults = frozenset(["interrupt", "memory", "callback", "close", "stack"])
    budget = 1500000
    headroom = None         # stack frames left to the library, if limited
    modes = ("solo", "coop", "preempt")

    def __init__(self, sim):
        pass

    @classmethod
    def label(cls):
        return cls.__name__

    def body(self, cx):
        """Generator: make library calls, raise Violation if any is wrong."""
        raise NotImplementedError

    def prepare(self, cx):
        """Build what several clients of this case will share."""

    def fingerprint(self):
        """Snapshot of the caller-owned inputs."""
        return None

    def describe(self):
        return self.label()


class Cx:
    """What a body sees."""

    def __init__(self, L, idx, shared=None):
        self.L = L
        self.idx = idx
        self.shared = shared


def wrong(msg):
    raise Violation("wrong-answer", msg)


def check(cond, msg):
    if not cond:
        raise Violation("wrong-answer", msg)


def expect(exc, fn, msg):
    """fn() must raise exc."""
    try:
        got = fn()
    except exc:
        return
    raise Violation("wrong-answer", "%s: returned %.80r instead of raising"
                    % (msg, got))


def pads_frame(exc):
    """Innermost library frame of an exception, as text."""
    where = None
    for fr, line in traceback.walk_tb(exc.__traceback__):
        fn = fr.f_code.co_filename
        if fn.startswith(engine.REPO + "/"):
            where = "%s:%s in %s" % (fn[len(engine.REPO) + 1:], line,
                                     fr.f_code.co_name)
    return where


def _short(exc):
    try:
        text = str(exc)
    except Exception:
        text = "?"
    return "%s: %s" % (type(exc).__name__, text[:160])


_unraisable = []


def _unraisablehook(u):
    _unraisable.append(u.exc_value)


class Stats:
    def __init__(self):
        self.mode = "solo"
        self.steps = 0
        self.maxphase = 0
        self.fired = {}
        self.planned = {}
        self.switches = 0
        self.turns = 0
        self.yields = 0
        self.touches = 0
        self.cases = []
        self.phases = 0
        self.nontrivial = False
        self.sched_crc = 0

    def add_recovered(self, c):
        for k in c.recovered:
            self.fired[k] = self.fired.get(k, 0) + c.recovered[k]


def judge(c, phase):
    """Classify how client c ended.  True: it was stopped by its fault."""
    exc = c.exc
    name = c.case.label()
    if isinstance(exc, HarnessError):
        raise exc
    if isinstance(exc, Violation):
        if c.fired is not None and c.fault not in ("close", "stack"):
            raise Violation("swallowed-failure",
                            "[%s, %s] injected %s did not reach the caller; "
                            "instead: %s" % (name, phase,
                                             type(c.fired).__name__,
                                             exc.message), name)
        raise Violation(exc.kind, "[%s, %s] %s" % (name, phase, exc.message),
                        name)
    if isinstance(exc, SimBudget):
        raise Violation("no-termination",
                        "[%s, %s] step budget exhausted" % (name, phase), name)
    if isinstance(exc, SimStop):
        raise HarnessError("stray SimStop")
    if c.fired is not None:
        if exc is None:
            if c.fault == "close":
                return True
            if any(x is c.fired for x in _unraisable):
                return True
            raise Violation("swallowed-failure",
                            "[%s, %s] injected %s did not reach the caller"
                            % (name, phase, type(c.fired).__name__), name)
        if exc is c.fired:
            return True
        raise Violation("replaced-failure",
                        "[%s, %s] injected %s reached the caller as %s"
                        % (name, phase, type(c.fired).__name__, _short(exc)),
                        name)
    if exc is not None:
        if isinstance(exc, (SystemExit, KeyboardInterrupt, GeneratorExit)):
            raise HarnessError("%s: %s" % (name, _short(exc)))
        where = pads_frame(exc) or "".join(
            traceback.format_tb(exc.__traceback__)[-1:]).strip()
        raise Violation("unexpected-exception", "[%s, %s] %s (%s)"
                        % (name, phase, _short(exc), where), name)
    return False


def _run_solo(sim, st, c, L, phase, shared=None):
    c.body = c.case.body(Cx(L, c.idx, shared))
    if c.case.headroom is None:
        E.run_solo(sim, c, c.case.budget)
    else:
        E.run_stack(sim, c, c.case.budget, c.case.headroom)
        c.fired = None      # running out of stack is no excuse here
    st.steps += c.steps
    st.maxphase = max(st.maxphase, c.steps)
    st.touches += c.touches
    st.yields += c.yields
    st.phases += 1
    st.add_recovered(c)


def _prepare(sim, st, case, L, phase):
    """case.prepare under the step budget and the usual classification."""
    box = []

    def body():
        box.append(case.prepare(Cx(L, 0)))
        return
        yield
    c = Client(0, case)
    c.body = body()
    E.run_solo(sim, c, case.budget)
    st.steps += c.steps
    judge(c, "preparing, " + phase)
    return box[0]


def simulate(sim, prop):
    """Run one simulation of prop on sim.  Returns Stats, raises Violation."""
    st = Stats()
    _unraisable.clear()
    old_hook = sys.unraisablehook
    sys.unraisablehook = _unraisablehook
    try:
        _simulate(sim, prop, st)
    finally:
        sys.unraisablehook = old_hook
    return st


def _pick_weighted(sim, table):
    total = sum([w for w, _ in table])
    k = sim.choose(total)
    for w, x in table:
        if k < w:
            return x
        k -= w


def _simulate(sim, prop, st):
    mode = _pick_weighted(sim, prop.modes)
    faulty = sim.flag(*prop.fault_rate)
    salt = sim.scramble()
    nclients = 1 if mode == "solo" else 2 + sim.small(0, prop.extra_clients)
    st.mode = mode

    # the caller's data
    engine.fresh_world(salt)
    clients = []
    for i in range(nclients):
        if i and sim.flag(prop.share, 4):
            case = clients[sim.choose(i)].case
        else:
            if i and sim.flag(prop.focus, 4):
                cls = type(clients[0].case)
            else:
                cls = _pick_weighted(sim, prop.pool)
            case = cls(sim)
            sim.log("case", cls.label(), case.describe()[:400])
        if mode not in case.modes:
            mode = st.mode = "solo"
        clients.append(Client(i, case))
    if mode == "solo":
        del clients[1:]
    st.cases = [c.case.label() for c in clients]
    distinct = []
    for c in clients:
        if c.case not in distinct:
            distinct.append(c.case)
    prints = [case.fingerprint() for case in distinct]

    def unmodified(phase):
        for case, fp in zip(distinct, prints):
            if case.fingerprint() != fp:
                raise Violation("input-modified",
                                "[%s, %s] caller's data was changed"
                                % (case.label(), phase), case.label())

    # A: every case alone, no faults; measures it as well
    L = fresh_world(salt)
    measured = {}
    for case in distinct:
        c = Client(0, case)
        shared = _prepare(sim, st, case, L, "alone")
        _run_solo(sim, st, c, L, "alone", shared)
        judge(c, "alone")
        measured[id(case)] = c
    unmodified("alone")
    st.nontrivial = st.steps >= prop.trivial_steps

    # fault plan
    plans = []
    for c in clients:
        m = measured[id(c.case)]
        plan = None
        if faulty:
            kinds = [f for f in engine.FAULTS if f in prop.faults
                     and f in c.case.faults
                     and not (f == "callback" and not m.touches)
                     and not (f == "close" and m.yields < 1)
                     and not (f == "stack" and mode != "solo")]
            if kinds and (nclients == 1 or sim.flag(2, 3)):
                kind = kinds[sim.choose(len(kinds))]
                if kind == "callback":
                    at = sim.choose(m.touches)
                elif kind == "close":
                    at = sim.choose(m.yields)
                elif kind == "stack":
                    at = 1 + sim.small(0, 40)
                else:
                    at = sim.choose(max(1, m.steps))
                plan = (kind, at)
                st.planned[kind] = st.planned.get(kind, 0) + 1
        plans.append(plan)
    if mode == "solo" and plans[0] is None:
        if sim.flag(1, 3):
            # the same calls once more in the same process
            c = clients[0]
            c.reset()
            shared = _prepare(sim, st, c.case, L, "again")
            _run_solo(sim, st, c, L, "again", shared)
            judge(c, "again")
            unmodified("again")
        return

    # B: the planned schedule and faults, in a process that starts afresh
    L = fresh_world(salt)
    shared = {}
    for case in distinct:
        shared[id(case)] = _prepare(sim, st, case, L, "fresh process")
    for c, plan in zip(clients, plans):
        c.reset()
        if plan:
            c.fault, c.fault_at = plan
    budget = sum([measured[id(c.case)].steps for c in clients]) * 4 + 20000
    budget = max(budget, max([c.case.budget for c in clients]))
    for c in clients:
        c.body = c.case.body(Cx(L, c.idx, shared[id(c.case)]))
    before = sim.crc
    sim.crc = 0
    if mode == "solo":
        c = clients[0]
        if c.fault == "stack":
            E.run_stack(sim, c, budget, c.fault_at)
        else:
            E.run_solo(sim, c, budget)
        phase = "with fault %s" % c.fault
    elif mode == "coop":
        E.run_coop(sim, clients, budget)
        phase = "interleaved"
    else:
        gapbits = 2 + sim.choose(10)
        E.run_preempt(sim, clients, budget, gapbits)
        phase = "preemptive"
    st.sched_crc = sim.crc
    sim.crc ^= before
    st.switches = E.switches
    st.phases += 1
    st.maxphase = max(st.maxphase, E.total)
    for c in clients:
        st.steps += c.steps
        st.touches += c.touches
        st.yields += c.yields
        st.add_recovered(c)
        if c.fired is not None:
            st.fired[c.fault] = st.fired.get(c.fault, 0) + 1
    stopped = [c for c in clients if judge(c, phase)]
    unmodified(phase)

    # C: everything again afterwards in the same process
    again = stopped if stopped else (clients[:1] if sim.flag(1, 3) else [])
    for c in again:
        d = Client(c.idx, c.case)
        sh = _prepare(sim, st, c.case, L, "afterwards")
        _run_solo(sim, st, d, L, "afterwards", sh)
        judge(d, "afterwards")
    # a structure that survived a faulty query must still answer
    for c in stopped:
        sh = shared[id(c.case)]
        if sh is not None and c.case.shared_survives:
            d = Client(c.idx, c.case)
            _run_solo(sim, st, d, L, "shared afterwards", sh)
            judge(d, "after a failed query")
    if again:
        unmodified("afterwards")


Case.shared_survives = False


class Prop:
    """A property: its pool of cases and the mix of configurations."""

    def __init__(self, id, pool, modes=None, faults=engine.FAULTS,
                 fault_rate=(1, 2), extra_clients=2, share=1,
                 focus=1, trivial_steps=30, runs=(2000, 20000)):
        self.id = id
        self.pool = [(w, c) for w, c in pool]
        self.modes = modes or [(5, "solo"), (2, "coop"), (3, "preempt")]
        self.faults = frozenset(faults)
        self.fault_rate = fault_rate
        self.extra_clients = extra_clients
        self.share = share          # of 4: two clients use the same inputs
        self.focus = focus          # of 4: ... the same entry points
        self.trivial_steps = trivial_steps
        self.runs = runs
        self.extra = None
