"""Deterministic simulator for pygsp.

One simulated execution owns every source of nondeterminism the properties
depend on:

* scheduling    caller threads are real threads, parked and released one at a
                time; who runs next is decided at *switch points* inside pygsp
                code (the places where CPython 3.12 may switch threads or
                deliver a signal: function entry, backward jumps, the
                instruction following a call into a library), observed
                through sys.monitoring on pygsp code objects only;
* faults        exceptions raised at library calls made by pygsp code
                (allocation and solver failures) or at switch points
                (asynchronous interrupts);
* randomness    numpy.random.default_rng / RandomState / global streams;
* locks         threading.Lock/RLock created by pygsp become simulated locks;
* time          a step counter; runaway executions hit a step budget.

Nothing here knows names or line numbers of pygsp internals.
"""

import _thread
import dis
import gc
import os
import sys
import threading
import types
import zlib

TOOL = 4
_mon = sys.monitoring
_EV = _mon.events

_real_Lock = threading.Lock
_real_RLock = threading.RLock

# code object -> {offset: crc} of switch points
POINTS = {}
# code object -> {call offset: offset of the next instruction}
NEXT = {}
QUAL = {}

CUR = None  # the simulation being executed in this process, if any


class SimAbort(BaseException):
    """Unwinds simulated threads when the simulation stops early."""


class StepBudgetExceeded(SimAbort):
    pass


class SimDeadlock(SimAbort):
    pass


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------- locks

class SimLock:
    """Replaces threading.Lock / RLock for locks created by pygsp."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._reentrant = reentrant

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        sim, me = CUR, self._me()
        th = sim.by_ident.get(me) if sim is not None else None
        if th is not None:
            sim.point(th, None, -1)
        while True:
            if self._owner is None or (self._reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking or th is None:
                if blocking:
                    raise HarnessError("lock held by a finished simulation")
                return False
            sim.stats["lock_waits"] = sim.stats.get("lock_waits", 0) + 1
            if timeout is not None and timeout > 0:
                return False
            th.blocked_on = self
            sim.block(th)

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        sim = CUR
        if sim is not None:
            for th in sim.threads:
                if th.blocked_on is self:
                    th.blocked_on = None
            th = sim.by_ident.get(self._me())
            if th is not None and sys.exc_info()[0] is None:
                sim.point(th, None, -2)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _reset(self):
        self._owner = None
        self._count = 0


_all_locks = []


def _from_pygsp(depth=2):
    f = sys._getframe(depth)
    return f.f_globals.get("__name__", "").split(".")[0] == "pygsp"


def _lock_factory():
    if _from_pygsp():
        lock = SimLock()
        _all_locks.append(lock)
        return lock
    return _real_Lock()


def _rlock_factory(*a, **k):
    if _from_pygsp():
        lock = SimLock(reentrant=True)
        _all_locks.append(lock)
        return lock
    return _real_RLock(*a, **k)


def patch_locks():
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory


# ------------------------------------------------------------ instrumentation

def _module_codes(root):
    """All code objects compiled from files under root."""
    seen, out = set(), []

    def add(code):
        if code in seen or not code.co_filename.startswith(root):
            return
        seen.add(code)
        out.append(code)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                add(const)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            add(obj.__code__)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return out


_CALLS = {"CALL", "CALL_FUNCTION_EX", "CALL_KW"}
# CPython 3.12 frees the arguments of f(*iterable) twice if a monitoring
# callback raises there, so no call of that form is chosen to fail.
UNSAFE = set()


def instrument(root, exclude=()):
    """Watch every function of the package under root. Returns their number."""
    n = 0
    if _mon.get_tool(TOOL) is None:
        _mon.use_tool_id(TOOL, "pygsp-sim")
        _mon.register_callback(TOOL, _EV.INSTRUCTION, _on_instruction)
        _mon.register_callback(TOOL, _EV.CALL, _on_call)
    for code in _module_codes(root):
        if code in POINTS or any(e in code.co_filename for e in exclude):
            continue
        watch(code, root)
        n += 1
    return n


def watch(code, root):
    """Watch the functions compiled to this code object, of a file in root."""
    rel = os.path.relpath(code.co_filename, root)
    # Identify points by function and ordinal, not by line.
    points, nexts = {}, {}
    ins = list(dis.get_instructions(code))
    for i, inst in enumerate(ins):
        name = inst.opname
        if name == "RESUME" and i + 1 < len(ins):
            points[ins[i + 1].offset] = None
        elif name == "JUMP_BACKWARD":
            points[inst.offset] = None
        elif name in _CALLS and i + 1 < len(ins):
            points[ins[i + 1].offset] = None
            nexts[inst.offset] = ins[i + 1].offset
            if name == "CALL_FUNCTION_EX":
                UNSAFE.add((code, inst.offset))
    for k, off in enumerate(sorted(points)):
        tag = f"{rel}:{code.co_qualname}:{k}"
        points[off] = zlib.crc32(tag.encode())
    POINTS[code] = points
    NEXT[code] = nexts
    QUAL[code] = f"{rel}:{code.co_qualname}"
    _mon.set_local_events(TOOL, code, _EV.INSTRUCTION | _EV.CALL)


def nested(code):
    yield code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            yield from nested(const)


def _line(code, offset):
    best = code.co_firstlineno
    for start, end, line in code.co_lines():
        if start <= offset and line is not None:
            best = line
        if start > offset:
            break
    return best


def where(code, offset):
    if code is None:
        return "lock" if offset in (-1, -2) else "operation boundary"
    return f"{QUAL.get(code, code.co_qualname)}:{_line(code, offset)}"


def _on_instruction(code, offset):
    points = POINTS.get(code)
    if points is None or offset not in points:
        return _mon.DISABLE
    sim = CUR
    if sim is None:
        return
    th = sim.by_ident.get(_thread.get_ident())
    if th is None:
        return
    if th.suppress and (code, offset) in th.suppress:
        th.suppress.discard((code, offset))
        return
    sim.point(th, code, offset)


_pygsp_callee_cache = {}


def _callee_code(callable_):
    f = callable_
    if isinstance(f, types.MethodType):
        f = f.__func__
    if isinstance(f, types.FunctionType):
        return f.__code__
    if isinstance(f, type):
        if f.__module__.split(".")[0] == "pygsp":
            return "pygsp"
    return None


def _lib_name(callable_):
    """Dotted name of a library callable, or None if it is not one."""
    f = callable_
    if isinstance(f, types.MethodType):
        f = f.__func__
    mod = getattr(f, "__module__", None)
    name = getattr(f, "__qualname__", None) or getattr(f, "__name__", None)
    if mod is None:
        slf = getattr(f, "__self__", None)
        if slf is not None and not isinstance(slf, types.ModuleType):
            mod = type(slf).__module__
        elif isinstance(f, types.MethodDescriptorType):
            mod = f.__objclass__.__module__
        else:
            mod = type(f).__module__
            name = name or type(f).__name__
    if not isinstance(mod, str):
        return None
    return f"{mod}.{name}"


def _on_call(code, offset, callable_, arg0):
    sim = CUR
    if sim is None:
        return
    th = sim.by_ident.get(_thread.get_ident())
    if th is None:
        return
    callee = _callee_code(callable_)
    if callee == "pygsp" or callee in POINTS:
        nxt = NEXT[code].get(offset)
        if nxt is not None:
            th.suppress.add((code, nxt))
        return
    if sim.watch_calls and (code, offset) not in UNSAFE:
        sim.libcall(th, code, offset, callable_)


# ----------------------------------------------------------------- simulation

class SimThread:
    __slots__ = ("tid", "gate", "steps", "suppress", "done", "fn",
                 "blocked_on", "exc", "thread", "op", "op_calls", "op_steps",
                 "fault", "lib")

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.steps = 0
        self.op = self.fault = None
        self.op_calls = self.op_steps = 0
        self.lib = False
        self.suppress = set()
        self.done = False
        self.blocked_on = None
        self.exc = None
        self.thread = None


LIB_ROOTS = ("numpy", "scipy", "networkx", "graph_tool", "pyunlocbox",
             "sklearn", "pyflann", "matplotlib", "pyqtgraph", "skimage")


class Sim:
    """One simulated execution.

    preempt : {(tid, local_step): target_tid}
        Which thread to switch to when a thread reaches a given switch point.
    faults : list of dict(tid, op, at="call"|"point", n, exc)
        ``n`` counts library calls, or points, since the thread began its
        operation number ``op`` (see begin_op).
    everywhere : bool
        Whether asynchronous exceptions (faults at points) are delivered at
        any switch point, or only at the first one after a library call: the
        time is spent there, the microseconds between two assignments of
        pygsp do not count.
    """

    def __init__(self, preempt=None, faults=None, budget=2_000_000,
                 record=False, make_exc=None, everywhere=False):
        self.preempt = preempt or {}
        self.faults = {}
        for f in faults or []:
            self.faults[(f["tid"], f["op"])] = f
        self.watch_calls = bool(self.faults) or record
        self.budget = budget
        self.record = record
        self.recorded = {}        # tid -> list of (code, offset)
        self.recorded_calls = {}  # (tid, op) -> [(name, code, offset)]
        self.recorded_ops = {}    # (tid, op) -> [(code, offset)]
        self.make_exc = make_exc
        self.everywhere = everywhere
        self.threads = []
        self.by_ident = {}
        self.total = 0
        self.digest = 0
        self.switch_digest = 0
        self.switches = []
        self.fired = []
        self.stats = {}
        self.abort = None
        self.controller = _thread.allocate_lock()
        self.active = None

    # -- events ------------------------------------------------------------
    def point(self, th, code, offset):
        if self.abort is not None:
            raise SimAbort()
        th.steps += 1
        self.total += 1
        if self.total > self.budget:
            self.abort = StepBudgetExceeded(
                f"no progress after {self.budget} steps, in "
                f"{where(code, offset)}")
            raise self.abort
        crc = POINTS[code][offset] if code is not None else 7 - offset
        self.digest = ((self.digest * 1000003) ^ (crc + th.tid * 7919)) \
            & 0xFFFFFFFFFFFFFFFF
        late = th.lib or self.everywhere or code is None
        th.lib = False
        if self.record:
            self.recorded.setdefault(th.tid, []).append((code, offset))
            if th.op is not None and late:
                self.recorded_ops.setdefault((th.tid, th.op), []).append(
                    (code, offset))
        target = self.preempt.get((th.tid, th.steps))
        if target is not None and target != th.tid:
            self._switch(th, target, code, offset)
        fault = th.fault
        if fault is not None and fault["at"] == "point" and late:
            th.op_steps += 1
            if th.op_steps == fault["n"]:
                th.fault = None
                self._fire(fault, where(code, offset))

    def libcall(self, th, code, offset, callable_):
        name = _lib_name(callable_)
        if name is None or name.split(".")[0] not in LIB_ROOTS:
            return
        if self.abort is not None:
            raise SimAbort()
        if th.op is None:
            return
        th.lib = True
        if self.record:
            self.recorded_calls.setdefault((th.tid, th.op), []).append(
                (name, code, offset))
        fault = th.fault
        if fault is not None and fault["at"] == "call":
            th.op_calls += 1
            if th.op_calls == fault["n"]:
                th.fault = None
                self._fire(fault, f"{where(code, offset)} calling {name}")

    def begin_op(self, th, op):
        """Faults planned for this operation of the thread are armed."""
        th.op = op
        th.op_calls = th.op_steps = 0
        th.lib = False
        th.fault = self.faults.get((th.tid, op))

    def end_op(self, th):
        th.op = th.fault = None

    def _fire(self, fault, place):
        fault = dict(fault, where=place)
        self.fired.append(fault)
        raise self.make_exc(fault["exc"])

    # -- scheduling ----------------------------------------------------------
    def _runnable(self):
        return [t for t in self.threads if not t.done and t.blocked_on is None]

    def _switch(self, th, target, code, offset):
        t = self.threads[target] if target < len(self.threads) else None
        if t is None or t.done or t.blocked_on is not None:
            others = [x for x in self._runnable() if x is not th]
            if not others:
                return
            t = others[0]
        self.switches.append((th.tid, t.tid, where(code, offset)))
        crc = POINTS[code][offset] if code is not None else 7 - offset
        self.switch_digest = ((self.switch_digest * 1000003) ^
                              (crc * 31 + th.tid * 7 + t.tid)) \
            & 0xFFFFFFFFFFFFFFFF
        self._handoff(th, t)

    def _handoff(self, th, t):
        self.active = t
        t.gate.release()
        th.gate.acquire()
        if self.abort is not None:
            raise SimAbort()

    def block(self, th):
        others = [x for x in self._runnable() if x is not th]
        if not others:
            self.abort = SimDeadlock("every thread waits for a lock")
            raise self.abort
        self._handoff(th, others[0])

    def _body(self, th):
        th.gate.acquire()
        self.by_ident[_thread.get_ident()] = th
        try:
            if self.abort is None:
                th.fn(th)
        except SimAbort:
            pass
        except BaseException as e:  # harness code is not supposed to raise
            th.exc = e
        finally:
            th.done = True
            del self.by_ident[_thread.get_ident()]
            self._next_after(th)

    def _next_after(self, th):
        nxt = self._runnable()
        if not nxt:
            nxt = [t for t in self.threads if not t.done]
            if nxt and self.abort is None:
                self.abort = SimDeadlock("every thread waits for a lock")
        if nxt:
            self.active = nxt[0]
            nxt[0].gate.release()
        else:
            self.controller.release()

    def run_threads(self, fns, first=0):
        """Run the functions as simulated threads, to completion."""
        global CUR
        if CUR is not None:
            raise HarnessError("nested simulation")
        self.threads = [SimThread(i, fn) for i, fn in enumerate(fns)]
        self.controller.acquire()
        CUR = self
        try:
            for th in self.threads:
                th.thread = threading.Thread(target=self._body, args=(th,),
                                             daemon=True)
                th.thread.start()
            self.active = self.threads[first]
            self.threads[first].gate.release()
            self.controller.acquire()
            for th in self.threads:
                th.thread.join()
        finally:
            CUR = None
            for lock in _all_locks:
                lock._reset()
        for th in self.threads:
            if th.exc is not None:
                raise th.exc
        return self

    def run_inline(self, fn):
        """Run one function in the calling thread (no scheduling)."""
        global CUR
        if CUR is not None:
            raise HarnessError("nested simulation")
        th = SimThread(0, fn)
        self.threads = [th]
        self.by_ident[_thread.get_ident()] = th
        CUR = self
        try:
            return fn(th)
        finally:
            th.done = True
            CUR = None
            self.by_ident.clear()
            for lock in _all_locks:
                lock._reset()


def position(f, rec):
    """The number of the recorded point at which a preemption takes place.

    By step, or by place: any place of the code is as likely as another,
    however often it is reached.
    """
    if f.get("by", "step") == "step":
        return int(min(f["frac"], .99999) * len(rec))
    sites = list(dict.fromkeys(rec))
    v = min(f["frac"], .99999) * len(sites)
    occ = [i for i, x in enumerate(rec) if x == sites[int(v)]]
    return occ[int((v - int(v)) * len(occ))]
