"""C02: failed or interrupted operations leave graphs consistent."""

import numpy as np
from scipy.sparse.linalg import ArpackError, ArpackNoConvergence

from .. import ops, world
from ..core import Violation
from ..kernel import Sim, SimAbort, HarnessError, StepBudgetExceeded

LEVEL = "fault_enumeration"
TECHNIQUE = ("exceptions injected at library calls, and interrupts when "
             "they return, in seeded operation histories")
NOTE = ("Each run injects one or more failures (memory, LAPACK, ARPACK, "
        "user kernels, interrupts) at library calls or their returns chosen "
        "by the seed in a random history, then checks every answer of the "
        "graph against a dense model and repeats the failed operation. "
        "Failures inside C code are represented by the exception the call "
        "would raise.")
RULE = ("A run is a seeded history of public operations, some of which fail "
        "at the n-th library call (n derived from a fault-free rehearsal of "
        "the same seed) or are interrupted when it returns; "
        "afterwards everything the graph answers is compared with the dense "
        "model, and the operation is repeated. Non-trivial: at least one "
        "fault fired. Distinctness: hash of the event log, which includes "
        "where each fault fired.")
STATES = ("(operation, kind of failure, function of pygsp and library call "
          "where it fired, Laplacian type) tuples")
REAL = "pygsp, NumPy, SciPy, NetworkX, graph-tool"
STUBS = ("library calls chosen to fail raise instead of running; user "
         "kernels chosen to fail raise")
ASSUMPTIONS = [
    "a library call that fails has no other effect",
    "an operation that reports success despite the fault must have the "
    "fault-free result",
]
QUICK = dict(cases=14000, seconds=95, batch=40)
THOROUGH = dict(cases=400000, seconds=780, batch=60)

EXCS = ["MemoryError", "LinAlgError", "ArpackNoConvergence", "ArpackError",
        "KeyboardInterrupt", "RuntimeError"]


def make_exc(name):
    if name == "ArpackNoConvergence":
        return ArpackNoConvergence("simulated", np.zeros(0), np.zeros((0, 0)))
    if name == "ArpackError":
        return ArpackError(-9)
    if name == "LinAlgError":
        return np.linalg.LinAlgError("simulated")
    return {"MemoryError": MemoryError, "KeyboardInterrupt":
            KeyboardInterrupt, "RuntimeError": RuntimeError}[name](
                "simulated fault")


WEIGHTS = dict(laplacian=4, full_basis=3, partial_basis=3, estimate=3,
               lmax=2, basis=2, filt=3)


def pick(rng):
    names = [n for n in ops.ALL for _ in range(WEIGHTS.get(n, 1))]
    return rng.choice(names)


def gen(rng, i, tier):
    spec = world.spec_graph(rng, nmin=5, nmax=12)
    if spec["kind"] == "loops":
        spec["lap"] = "combinatorial"
    seq, faults = [], []
    for k in range(rng.randint(1, 6)):
        name = pick(rng)
        seq.append(dict(op=name, p=ops.OPS[name].gen(rng, spec)))
        if rng.random() < .6:
            if name in ("filt", "frame", "gabor", "spectrogram") and \
                    rng.random() < .3:
                seq[-1]["p"]["fail"] = ops.kernel_fault(rng)
                continue
            at = "point" if rng.random() < .2 else "call"
            faults.append(dict(
                op=k, at=at, frac=round(rng.random(), 4),
                exc="KeyboardInterrupt" if at == "point" else
                rng.choice(EXCS)))
    if not faults and not any("fail" in q["p"] for q in seq):
        faults.append(dict(op=0, at="call", frac=round(rng.random(), 4),
                           exc="MemoryError"))
    return dict(graphs=[spec], ops=seq, faults=faults)


EXPECTED = (MemoryError, np.linalg.LinAlgError, ArpackError, RuntimeError,
            KeyboardInterrupt, ops.KernelError)


class Runner:
    def __init__(self, case, ctx, faults, record):
        self.case, self.ctx = case, ctx
        self.sim = Sim(faults=faults, record=record, make_exc=make_exc)
        self.record = record

    def call(self, th, o, s, p, label):
        """Run one operation; returns (result, exception)."""
        if label is not None:
            self.sim.begin_op(th, label)
        try:
            return o.run(s, p), None
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            return None, e
        finally:
            if label is not None:
                self.sim.end_op(th)

    def main(self, th):
        ctx, case = self.ctx, self.case
        s = ops.Slot(case["graphs"][0])
        for k, q in enumerate(case["ops"]):
            o, p = ops.OPS[q["op"]], dict(q["p"])
            d = dict(step=k, op=q["op"])
            if self.record:
                p.pop("fail", None)
            if not o.able(s, p):
                continue
            lap, signals, coords = s.m.lap, dict(s.signals), s.coords
            n_fired = len(self.sim.fired)
            r, e = self.call(th, o, s, p, k)
            fired = self.sim.fired[n_fired:]
            if self.record:
                if e is None:
                    o.settle(s, p, r)
                elif not world.genuine(e):
                    raise Violation(
                        f"unexpected-{type(e).__name__}",
                        f"{q['op']} without fault: {e}", **d)
                continue
            ctx.log(k, q["op"], type(e).__name__, [f["where"] for f in fired])
            if fired:
                f = fired[0]
                d["fault"] = f"{f['exc']} at {f['where']}"
                ctx.fault(f"{f['exc']} at {f['at']}")
                ctx.probe("faults fired")
                ctx.state((q["op"], f["exc"], f["where"].split(":")[0:2],
                           f["where"].split(" ")[-1], lap))
            elif isinstance(e, ops.KernelError):
                d["fault"] = "user kernel raised"
                ctx.fault("user kernel raised")
            if e is None:
                # No fault, or survived: the answer must be right.
                if fired:
                    ctx.probe("survived the fault")
                lap0 = s.m.lap
                if s.G.lap_type != lap0 and q["op"] != "laplacian":
                    raise Violation("lap_type-wrong", s.G.lap_type, **d)
                o.settle(s, p, r)
                o.check(s, p, r, d)
                ops_done(s, o, p, r)
            elif not fired and not isinstance(e, ops.KernelError):
                if world.genuine(e) and o.noconv:
                    ctx.probe("genuine non-convergence")
                    continue
                raise Violation(f"unexpected-{type(e).__name__}",
                                f"{q['op']} without fault: {e}", **d)
            else:
                # Failed: the state of before, or of after, coherently.
                if q["op"] == "laplacian" and s.G.lap_type != s.m.lap:
                    ops.OPS["laplacian"].settle(s, p, None)
                if q["op"] == "partial_basis":
                    s.partial = True
                if q["op"] == "signal" and "name" in p:
                    got = s.G.signals.get(p["name"])
                    o.settle(s, p, None)
                    new = s.signals[p["name"]]
                    if np.shape(got) != new.shape or (got != new).any():
                        s.signals = signals
                if q["op"] == "coordinates" and s.G.coords is not coords:
                    got = np.array(s.G.coords)
                    if got.shape != coords.shape or (got != coords).any():
                        # the new layout, or nothing
                        want, e2 = self.call(th, o, s, p, None)
                        if e2 is not None or np.shape(want) != got.shape \
                                or (np.asarray(want) != got).any():
                            raise Violation("coords-wrong", "neither the old "
                                            "nor the new layout", **d)
                        s.coords = got
                self.verify(s, d, q.get("look", (k + len(q["op"])) % 3))
                p.pop("fail", None)
                ops.Kernel.disarm()
                if not o.able(s, p):
                    continue
                r, e = self.call(th, o, s, p, None)
                if e is not None:
                    if world.genuine(e) and o.noconv:
                        continue
                    raise Violation(
                        "retry-failed", f"{q['op']} fails again without the "
                        f"fault: {type(e).__name__}: {e}", **d)
                ctx.probe("retried")
                o.settle(s, p, r)
                o.check(s, p, r, dict(d, retried=True))
                ops_done(s, o, p, r)
        if not self.record:
            self.verify(s, dict(step="end"), 0)

    def verify(self, s, d, look):
        """Some answers first, then all: later ones may repair caches."""
        try:
            if look == 1:
                world.check_lmax(s.G, s.m, None, **d)
            elif look == 2:
                world.check_D(s.G, s.m, **d)
            ops.check_state(s, d)
        except (Violation, SimAbort, HarnessError):
            raise
        except Exception as e:
            import traceback
            raise Violation(f"unusable-{type(e).__name__}",
                            f"after {d}: {type(e).__name__}: {e}",
                            traceback=traceback.format_exc()[-1500:], **d)


def ops_done(s, o, p, r):
    pass


def run(case, ctx):
    from .. import seams
    ops.Kernel.disarm()
    faults = []
    if case["faults"]:
        rehearsal = Runner(case, ctx, None, True)
        try:
            rehearsal.sim.run_inline(rehearsal.main)
        except StepBudgetExceeded as e:
            raise Violation("no-termination", str(e))
        for f in case["faults"]:
            rec = rehearsal.sim.recorded_calls if f["at"] == "call" else \
                rehearsal.sim.recorded_ops
            total = len(rec.get((0, f["op"]), ()))
            if total:
                faults.append(dict(tid=0, op=f["op"], at=f["at"],
                                   n=1 + int(min(f["frac"], .9999) * total),
                                   exc=f["exc"]))
        seams.seed_entropy(case.get("entropy", 0))
    r = Runner(case, ctx, faults, False)
    try:
        r.sim.run_inline(r.main)
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        ctx.steps += r.sim.total
        ctx.log("digest", r.sim.digest)
    ctx.trivial = not ctx.faults
