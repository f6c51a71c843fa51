"""Loading of the library under test, bytecode-level monitoring, scheduling of
simulated callers, and fault delivery.

The library is loaded from the current working tree of REPO by our own
importer, which gives it a private set of builtins.  Every loaded code object
is monitored (sys.monitoring, per instruction); points at which CPython itself
may deliver a signal or switch threads are *interrupt points*, instructions
that allocate are *allocation points*.  A step is one such point.
"""

import builtins
import dis
import gc
import importlib.abc
import importlib.machinery
import os
import random
import sys
import threading
import types
import weakref

from .kernel import (HarnessError, SimBudget, SimCallbackError, SimInterrupt,
                     SimMemoryError, SimStop, Violation)

REPO = os.environ.get("PADS_REPO", "/repo")
PKG = "pads"
TOOL = 4
BIG = 1 << 60
I_POINT = 1
M_POINT = 2

mon = sys.monitoring
DISABLE = mon.DISABLE

_ALLOC_OPS = {"CALL", "CALL_FUNCTION_EX", "BUILD_LIST", "BUILD_SET",
              "BUILD_MAP", "BUILD_TUPLE", "BUILD_STRING", "BUILD_SLICE",
              "BUILD_CONST_KEY_MAP", "BINARY_OP", "BINARY_SUBSCR",
              "STORE_SUBSCR", "LIST_APPEND", "SET_ADD", "MAP_ADD",
              "LIST_EXTEND", "SET_UPDATE", "DICT_UPDATE", "GET_ITER",
              "MAKE_FUNCTION", "FORMAT_VALUE", "STORE_ATTR",
              "RETURN_GENERATOR", "BINARY_SLICE", "STORE_SLICE"}
_CALL_OPS = {"CALL", "CALL_FUNCTION_EX"}

# id(code) -> {offset: kinds}; code objects are kept alive by _codes.
TAB = {}
_codes = []


def _points(code):
    table = {}
    after_call = False
    for ins in dis.get_instructions(code):
        k = 0
        if after_call or ins.opname in ("RESUME", "JUMP_BACKWARD"):
            k |= I_POINT
        if ins.opname in _ALLOC_OPS:
            k |= M_POINT
        if k:
            table[ins.offset] = k
        after_call = ins.opname in _CALL_OPS
    return table


_left = BIG


def _on_instruction(code, off, _id=id):
    global _left
    kind = TAB[_id(code)].get(off)
    if kind is None:
        return DISABLE
    _left -= 1
    if _left > 0:
        return None
    E.action(kind, code, off)
    return None


def _instrument(code):
    if id(code) in TAB:
        return
    TAB[id(code)] = _points(code)
    _codes.append(code)
    mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _instrument(const)


# -- private builtins of the library ------------------------------------------

class _World:
    """Per-run environment as seen by the library."""

    def __init__(self):
        self.reset(0)

    def reset(self, salt):
        self.salt = salt
        self.nhash = 0
        self.ids = {}
        self.freeids = []
        self.nids = 0
        self.random = random.Random(salt)

    def newhash(self):
        self.nhash += 1
        if self.salt == 0:
            return self.nhash
        return (self.nhash * 0x9E3779B97F4A7C15 ^ self.salt) % (1 << 61)


W = _World()


class SimObj:
    """Instance returned by object() inside the library."""

    __slots__ = ("_h", "__weakref__")

    def __init__(self):
        self._h = W.newhash()

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "<object %d>" % (self._h % 1000)


class _ObjectShim:
    """Stands for the name `object` inside the library."""

    def __call__(self, *args, **kw):
        return SimObj()

    def __mro_entries__(self, bases):
        return (builtins.object,)

    def __instancecheck__(self, x):
        return True

    def __subclasscheck__(self, x):
        return True

    def __getattr__(self, name):
        return getattr(builtins.object, name)


def _simhash(self):
    try:
        d = self.__dict__
    except AttributeError:
        return 0
    h = d.get("\0simhash")
    if h is None:
        h = d["\0simhash"] = W.newhash()
    return h


def _build_class(func, name, *bases, **kw):
    cls = builtins.__build_class__(func, name, *bases, **kw)
    if isinstance(cls, type) and cls.__hash__ is builtins.object.__hash__:
        try:
            cls.__hash__ = _simhash
        except TypeError:
            pass
    return cls


def _sim_id(x):
    """Identity numbers that are reused as soon as their owner dies."""
    real = builtins.id(x)
    got = W.ids.get(real)
    if got is not None and got[1]() is x:
        return got[0]
    world = W

    def gone(ref, real=real, ids=W.ids, free=W.freeids):
        e = ids.get(real)
        if e is not None and e[1] is ref:
            del ids[real]
            free.append(e[0])
    try:
        ref = weakref.ref(x, gone)
    except TypeError:
        return real
    if W.freeids:
        n = W.freeids.pop()
    else:
        world.nids += 1
        n = 4096 + 16 * world.nids
    W.ids[real] = (n, ref)
    return n


class SimLock:
    """Lock whose waiters give way to other simulated callers."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        spins = 0
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            spins += 1
            if spins > 20000 or not E.yield_to_other():
                raise Violation("deadlock", "caller blocked on a lock for ever")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1

    def locked(self):
        return self.count > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class _ThreadingShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "threading")
        self.Lock = SimLock
        self.RLock = lambda: SimLock(True)

    def __getattr__(self, name):
        return getattr(threading, name)


class _RandomShim(types.ModuleType):
    """random, drawing from the run's own generator."""

    def __getattr__(self, name):
        if hasattr(W.random, name) and not name.startswith("_"):
            return lambda *a, **k: getattr(W.random, name)(*a, **k)
        return getattr(random, name)


_threading_shim = _ThreadingShim()
_random_shim = _RandomShim("random")


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == "threading":
            return _threading_shim
        if name == "random":
            return _random_shim
    return builtins.__import__(name, globals, locals, fromlist, level)


SIM_BUILTINS = dict(vars(builtins))
SIM_BUILTINS.update({"object": _ObjectShim(), "id": _sim_id,
                     "__build_class__": _build_class, "__import__": _import})


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads the package from the working tree, caching code objects only."""

    def __init__(self):
        self.cache = {}

    def path(self, fullname):
        parts = fullname.split(".")
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        return base + ".py", False

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        fn, ispkg = self.path(fullname)
        if not os.path.exists(fn):
            return None
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=fn,
                                              is_package=ispkg)
        if ispkg:
            spec.submodule_search_locations = [os.path.dirname(fn)]
        return spec

    def create_module(self, spec):
        return None

    def code(self, fullname):
        if fullname not in self.cache:
            fn, _ = self.path(fullname)
            with open(fn, "rb") as f:
                code = compile(f.read(), fn, "exec", dont_inherit=True)
            _instrument(code)
            self.cache[fullname] = code
        return self.cache[fullname]

    def exec_module(self, module):
        module.__dict__["__builtins__"] = SIM_BUILTINS
        code = self.code(module.__name__)
        # imports hold the interpreter's import lock: run them in one go
        cur = E.suspend()
        try:
            exec(code, module.__dict__)
        finally:
            E.unsuspend(cur)


FINDER = _Finder()


def run_program(name):
    """Run a library module as a program, the way -m does."""
    module = types.ModuleType("__main__")
    module.__dict__["__builtins__"] = SIM_BUILTINS
    module.__package__ = PKG
    exec(FINDER.code(PKG + "." + name), module.__dict__)


class Lib:
    """The library as imported in the present world: L.dfs, L.bfs, ..."""

    def __getattr__(self, name):
        m = importlib.import_module(PKG + "." + name)
        setattr(self, name, m)
        return m


def fresh_world(salt):
    """Forget every loaded library module and start again."""
    for name in [n for n in sys.modules
                 if n == PKG or n.startswith(PKG + ".")]:
        del sys.modules[name]
    W.reset(salt)
    return Lib()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, FINDER)
    mon.use_tool_id(TOOL, "padsim")
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instruction)
    gc.disable()


# -- clients and the scheduler ---------------------------------------------------

FAULTS = ("interrupt", "memory", "callback", "close", "stack")


class Client:
    def __init__(self, idx, case):
        self.idx = idx
        self.case = case
        self.reset()

    def reset(self):
        self.body = None
        self.fault = None        # kind planned
        self.fault_at = None     # steps / touches / yields until it happens
        self.fired = None        # the exception instance delivered
        self.steps = 0
        self.touches = 0
        self.yields = 0
        self.recovered = {}
        self.exc = None
        self.done = False
        self.gate = None


class Engine:
    def __init__(self):
        self.cur = None
        self.mode = None

    # -- accounting

    def begin(self, sim, mode, clients, budget):
        self.sim = sim
        self.mode = mode
        self.clients = clients
        self.runnable = list(clients)
        self.cur = None
        self.total = 0
        self.budget = budget
        self.switch_in = None
        self.switches = 0
        self.armed = 0
        self.stopping = False

    def end(self):
        global _left
        self.settle()
        _left = BIG
        self.armed = BIG
        self.cur = None
        self.mode = None

    def settle(self):
        """Book the steps used since the countdown was last set."""
        global _left
        used = self.armed - _left
        self.armed = _left
        c = self.cur
        if c is None or used <= 0:
            return
        c.steps += used
        self.total += used
        if c.fault in ("interrupt", "memory") and c.fired is None:
            c.fault_at -= used
        if self.switch_in is not None:
            self.switch_in -= used

    def spent(self):
        """Steps of the running client so far."""
        if self.cur is None:
            raise HarnessError("no client is running")
        self.settle()
        return self.cur.steps

    def rearm(self):
        global _left
        c = self.cur
        n = self.budget - self.total
        if c is not None and c.fault in ("interrupt", "memory") \
                and c.fired is None:
            n = min(n, c.fault_at)
        if self.switch_in is not None:
            n = min(n, self.switch_in)
        _left = self.armed = max(1, n)

    def resume(self, c):
        """Client c is about to run."""
        self.settle()
        self.cur = c
        self.rearm()

    def pause(self):
        global _left
        self.settle()
        self.cur = None
        _left = self.armed = BIG

    def suspend(self):
        cur = self.cur
        if cur is not None:
            self.pause()
        return cur

    def unsuspend(self, cur):
        if cur is not None:
            self.resume(cur)

    # -- what happens at a point

    def action(self, kind, code, off):
        self.settle()
        c = self.cur
        if c is None:
            self.rearm()
            return
        if self.total >= self.budget:
            self.rearm()
            raise SimBudget()
        if c.fired is None and c.fault_at is not None and c.fault_at <= 0:
            if c.fault == "interrupt" and kind & I_POINT:
                self.fire(c, SimInterrupt("simulated interrupt"), code, off)
            if c.fault == "memory" and kind & M_POINT:
                self.fire(c, SimMemoryError("simulated allocation failure"),
                          code, off)
        if self.switch_in is not None and self.switch_in <= 0 \
                and kind & I_POINT:
            self.switch(code.co_name, off)
        self.rearm()

    def fire(self, c, exc, code=None, off=None):
        c.fired = exc
        where = "%s+%s" % (code.co_name, off) if code is not None else off
        self.sim.log("fault", c.fault, "client", c.idx, "at", where)
        self.rearm()
        raise exc

    def touch(self, label):
        """The library reached something the caller supplied."""
        c = self.cur
        if c is None:
            return
        c.touches += 1
        if c.fault == "callback" and c.fired is None \
                and c.touches > c.fault_at:
            self.fire(c, SimCallbackError("simulated failure of " + label),
                      None, label)
        if self.mode == "preempt":
            self.settle()
            if self.switch_in is not None:
                self.switch_in -= 1
                if self.switch_in <= 0:
                    self.switch(label, self.switches)
            self.rearm()

    def recovered(self, kind):
        """A client met a failure of its own making and carries on."""
        c = self.cur
        if c is not None:
            c.recovered[kind] = c.recovered.get(kind, 0) + 1

    # -- switching

    def draw_gap(self):
        g = self.sim.logscale(self.gapbits)
        self.switch_in = g if g else None

    def switch(self, where, off, forced=False):
        me = self.cur
        others = [c for c in self.runnable if c is not me]
        if not others:
            self.switch_in = None
            return False
        nxt = others[self.sim.choose(len(others))]
        self.draw_gap()
        if self.switch_in is None and forced:
            self.switch_in = 64
        self.switches += 1
        self.sim.log("switch", me.idx, "to", nxt.idx, "at", where, off)
        self.settle()
        self.cur = nxt
        self.rearm()
        nxt.gate.release()
        me.gate.acquire()
        if self.stopping:
            raise SimStop()
        return True

    def yield_to_other(self):
        if self.mode != "preempt" or self.cur is None:
            return False
        return self.switch("lock", 0, forced=True)

    # -- driving bodies

    def _step(self, c):
        """Advance client c to its next yield; False when it is finished."""
        try:
            next(c.body)
        except StopIteration:
            c.done = True
        except SimStop:
            raise
        except BaseException as e:
            c.exc = e
            c.done = True
        if c.done:
            return False
        c.yields += 1
        if c.fault == "close" and c.fired is None and c.yields > c.fault_at:
            self.sim.log("fault close client", c.idx, "after yield", c.yields)
            c.fired = GeneratorExit()
            try:
                c.body.close()
            except BaseException as e:
                c.exc = e
            c.done = True
            return False
        return True

    def run_solo(self, sim, c, budget):
        self.begin(sim, "solo", [c], budget)
        self.resume(c)
        try:
            while self._step(c):
                pass
        finally:
            self.pause()
            self.end()

    def run_stack(self, sim, c, budget, headroom):
        """Solo, with only a few stack frames left for the library."""
        self.begin(sim, "solo", [c], budget)
        self.resume(c)
        depth = 0
        f = sys._getframe()
        while f is not None:
            depth += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(depth + 6 + headroom)
        try:
            while self._step(c):
                pass
        finally:
            sys.setrecursionlimit(old)
            self.pause()
            self.end()
        if isinstance(c.exc, RecursionError):
            c.fired = c.exc
            sim.log("fault stack client", c.idx, "headroom", headroom)

    def run_coop(self, sim, clients, budget):
        """Single thread; clients take turns at their own yields."""
        self.begin(sim, "coop", clients, budget)
        cur = clients[0]
        try:
            while self.runnable:
                # zero: carry on with the same client
                if cur not in self.runnable:
                    cur = self.runnable[sim.choose(len(self.runnable))]
                elif len(self.runnable) > 1 and sim.choose(3):
                    others = [c for c in self.runnable if c is not cur]
                    new = others[sim.choose(len(others))]
                    self.switches += 1
                    sim.log("turn", new.idx)
                    cur = new
                self.resume(cur)
                alive = self._step(cur)
                self.pause()
                if not alive:
                    self.runnable.remove(cur)
        finally:
            self.pause()
            self.end()

    def run_preempt(self, sim, clients, budget, gapbits):
        """One thread per client, exactly one of them released at a time."""
        self.begin(sim, "preempt", clients, budget)
        self.gapbits = gapbits
        main = threading.Lock()
        main.acquire()
        for c in clients:
            c.gate = threading.Lock()
            c.gate.acquire()

        def work(c):
            c.gate.acquire()
            try:
                if self.stopping:
                    return
                while self._step(c):
                    # between operations: zero means no switch
                    if len(self.runnable) > 1 and sim.choose(4) == 3:
                        self.settle()
                        self.switch("between calls", c.yields)
            except SimStop:
                return
            except BaseException as e:
                c.exc = HarnessError("client thread died: %r" % (e,))
                c.done = True
            self.settle()
            self.runnable.remove(c)
            if self.runnable:
                nxt = self.runnable[sim.choose(len(self.runnable))]
                sim.log("finished", c.idx, "next", nxt.idx)
                self.draw_gap()
                self.cur = nxt
                self.rearm()
                nxt.gate.release()
            else:
                self.pause()
                main.release()

        threads = [threading.Thread(target=work, args=(c,), daemon=True)
                   for c in clients]
        for t in threads:
            t.start()
        first = clients[sim.choose(len(clients))]
        self.draw_gap()
        self.cur = first
        self.rearm()
        first.gate.release()
        main.acquire()
        for t in threads:
            t.join()
        self.end()


E = Engine()
E.gapbits = 8
touch = E.touch
