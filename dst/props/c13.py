"""C13: learning operators solve the stated problem for the current graph."""

import contextlib
import gc
import inspect

import numpy as np
from scipy.sparse.linalg import ArpackError

from .. import ops, seams, snap, world
from ..core import HarnessError, Violation
from ..kernel import (Sim, SimAbort, SimDeadlock, StepBudgetExceeded,
                      position)

LEVEL = "exploration"
TECHNIQUE = ("seeded search over histories and interleavings of learning "
             "operators that share graphs and measurements, with exceptions, "
             "interrupts and solvers that do not converge")
NOTE = ("The operators are called in the middle of histories of the graph "
        "(Laplacians, largest eigenvalues, bases), by one thread or by two "
        "that share the graph, the measurements and the masks. Library calls "
        "fail, threads are interrupted, and the conjugate gradient runs out "
        "of iterations. Every solution is judged by the optimality "
        "conditions of its problem, formed from a dense model of the graph.")
RULE = ("A run is one or two graphs, one or two sets of measurements, and either a "
        "history of 2 to 7 operations with 0 to 3 faults, each operation "
        "that failed being repeated, or two threads of 1 to 3 operations "
        "with 1 to 4 preemptions. Non-trivial: a solution was judged. "
        "Distinctness: hash of the event log, which includes solutions.")
STATES = ("(operator, tau is 0, Laplacian type, kind of graph, kind of mask, "
          "fault) tuples")
REAL = "pygsp, SciPy, PyUNLocBoX; real threads"
STUBS = ("thread scheduler; library calls chosen to fail; the iteration "
         "budget of the conjugate gradient; starting vectors of the "
         "eigensolver")
ASSUMPTIONS = [
    "masks are arrays of booleans; with tau=0 they measure at least one "
    "vertex of every connected component",
    "the constrained classification is solved to the accuracy of 400 "
    "iterations of the solver",
]
QUICK = dict(cases=6000, seconds=100, batch=40)
THOROUGH = dict(cases=300000, seconds=780, batch=60)

KINDS = ["er", "er_w", "er_dir", "path", "ring", "star", "complete",
         "isolated", "two", "tree", "sbm_w", "int", "f32", "loops"]
HISTORY = ["laplacian", "laplacian", "laplacian", "lmax", "estimate",
           "full_basis", "partial_basis", "diff", "D", "basis", "signal",
           "subgraph", "battery"]
LAZY = ["lmax", "estimate", "full_basis", "diff", "D", "basis"]
EXCS = ["MemoryError", "RuntimeError", "LinAlgError", "KeyboardInterrupt"]


def learn_any(rng, n_data):
    return dict(op="learn", p=dict(
        what=rng.choice(["regression"] * 4 + ["classification"] * 3 +
                        ["simplex"] * 2),
        data=rng.randrange(n_data),
        tau=rng.choice([0, 0, .01, .1, 1, 10, 1e3, 1e6]),
        relative=rng.random() < .6))


def gen(rng, i, tier):
    def graph():
        spec = world.spec_graph(rng, KINDS, nmin=4, nmax=40 if large else 9)
        if spec["kind"] == "loops":
            spec["lap"] = "combinatorial"
        return spec

    large = rng.random() < .12
    spec = graph()
    data = [dict(seed=rng.getrandbits(16),
                 dtype=rng.choice(["f8", "f8", "f8", "f4", "i8", "i4"]),
                 cols=rng.choice([0, 0, 0, 1, 2, 3]),
                 order=rng.choice("CCF"), nan=rng.random() < .7,
                 frac=rng.choice([0, .2, .5, .5, .8, 1]))
            for _ in range(rng.choice([1, 1, 2]))]
    case = dict(graphs=[spec], data=data)

    def learn(rng, n_data):
        q = learn_any(rng, n_data)
        if large and q["p"]["what"] == "simplex":
            q["p"]["what"] = "regression"
        return q

    if rng.random() < .35:
        threads = []
        for t in range(2):
            seq = []
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .75:
                    seq.append(learn(rng, len(data)))
                else:
                    name = rng.choice(LAZY)
                    seq.append(dict(op=name,
                                    p=ops.OPS[name].gen(rng, spec)))
            threads.append(seq)
        case["threads"] = threads
        case["preempt"] = [dict(tid=rng.randrange(2),
                                by=rng.choice(["step", "place"]),
                                frac=round(rng.random(), 5))
                           for _ in range(rng.randint(1, 4))]
        return case
    seq, faults = [], []
    if rng.random() < .3:
        case["graphs"].append(graph())
    for k in range(rng.randint(2, 7)):
        if rng.random() < .08:
            seq.append(dict(op="new", p=graph()))
        elif rng.random() < .55 or k == 0 and rng.random() < .5:
            seq.append(learn(rng, len(data)))
        else:
            name = rng.choice(HISTORY)
            seq.append(dict(op=name, p=ops.OPS[name].gen(rng, spec)))
        if seq[-1]["op"] == "learn" and rng.random() < .35:
            at = rng.choice(["call", "call", "point", "budget"])
            faults.append(dict(op=k, at=at, frac=round(rng.random(), 5),
                               exc="KeyboardInterrupt" if at == "point" else
                               rng.choice(EXCS)))
    for q in seq:
        q["g"] = rng.randrange(len(case["graphs"]))
    case["ops"] = seq
    case["faults"] = faults
    return case


def make_exc(name):
    if name == "LinAlgError":
        return np.linalg.LinAlgError("simulated")
    return {"MemoryError": MemoryError, "RuntimeError": RuntimeError,
            "KeyboardInterrupt": KeyboardInterrupt}[name]("simulated fault")


# ------------------------------------------------------------- the measurements

class Data:
    """Measurements that several calls share."""

    def __init__(self, q, m):
        r = world.nprng("learn", q["seed"])
        n = m.n
        self.M = r.uniform(size=n) < q["frac"]
        self.covering = self.M.copy()
        for comp in components(m.S):
            if not self.M[comp].any():
                self.covering[comp[int(r.integers(len(comp)))]] = True
        shape = (n, q["cols"]) if q["cols"] else (n,)
        y = r.normal(size=shape) * (1 if q["dtype"][0] == "f" else 10)
        self.y = self.hide(q, np.asarray(y, q["dtype"], order=q["order"]))
        self.labels = self.hide(q, r.integers(
            0, 1 + int(r.integers(1, 4)), size=n).astype(q["dtype"]))
        self.before = snap.snap([self.M, self.covering, self.y, self.labels])

    def hide(self, q, y):
        """What is not measured has no value."""
        out = ~self.covering
        if q["nan"]:
            y[out] = np.nan if y.dtype.kind == "f" else -7
        return y

    def changed(self):
        return snap.where(self.before, snap.snap(
            [self.M, self.covering, self.y, self.labels]))


def components(S):
    n, left, out = len(S), set(range(len(S))), []
    while left:
        todo, comp = [min(left)], set()
        while todo:
            i = todo.pop()
            if i in comp:
                continue
            comp.add(i)
            todo += [int(j) for j in np.nonzero(S[i])[0]]
        out.append(sorted(comp))
        left -= comp
    return out


def tau_of(s, p):
    tau = p["tau"]
    if p["what"] == "simplex":
        # (what a reasonable number of iterations can solve)
        tau = min(tau, 10) or .1
        return tau / s.m.lmax()
    return tau / max(s.m.dw.max(), 1e-300) if p["relative"] else tau


def call(s, data, p, tau):
    from pygsp import learning
    x = data[p["data"]]
    M = x.M if tau > 0 else x.covering
    if p["what"] == "regression":
        return learning.regression_tikhonov(s.G, x.y, M, tau=tau)
    if p["what"] == "classification":
        return learning.classification_tikhonov(s.G, x.labels, M, tau=tau)
    return learning.classification_tikhonov_simplex(
        s.G, x.labels, M, tau=tau, verbosity="NONE", rtol=1e-9, maxit=400)


# -------------------------------------------------------------- the optimality

def logits(labels, M):
    lab = np.where(M, labels, 0).astype(int)
    Y = np.zeros((len(lab), lab.max() + 1))
    Y[np.arange(len(lab)), lab] = 1
    Y[~M] = 0
    return Y


def judge(s, data, p, tau, got, d):
    x, m = data[p["data"]], s.m
    L = m.L()
    M = x.M if tau > 0 else x.covering
    d = dict(d, what=p["what"], tau=tau, lap=m.lap)
    if p["what"] == "regression":
        Y = np.where(M if x.y.ndim == 1 else M[:, None], x.y, 0).astype(float)
        shape = x.y.shape
    else:
        Y = logits(x.labels, M)
        shape = Y.shape
    got = np.asarray(got)
    if got.shape != shape:
        raise Violation("solution-shape", f"{got.shape} instead of {shape}",
                        **d)
    if not np.isfinite(got).all():
        raise Violation("solution-not-finite", f"{got!r}"[:300], **d)
    X, Y = got.reshape(m.n, -1).astype(float), Y.reshape(m.n, -1)
    f32 = m.f32 or x.y.dtype == "f4" and p["what"] == "regression"
    eps = 1e-5 * max(1, m.n / 20) if f32 else 1e-11
    if p["what"] == "simplex":
        return simplex(X, Y, M, L, tau, eps, d)
    if tau > 0:
        A = np.diag(M.astype(float)) + tau * L
        for j in range(X.shape[1]):
            r = np.linalg.norm(A @ X[:, j] - Y[:, j])
            t = 1e-4 * np.linalg.norm(Y[:, j]) + \
                eps * np.abs(A).max() * m.n * np.linalg.norm(X[:, j])
            if not r <= t:
                raise Violation("not-the-minimum", f"column {j}: residual "
                                f"{r:.3g}, tolerance {t:.3g}", **d)
        return
    if (X[M] != Y[M]).any():
        raise Violation("measurements-changed", f"{X[M]} instead of {Y[M]}",
                        **d)
    r = np.abs((L @ X)[~M]).max(initial=0)
    t = 1e2 * eps * np.abs(L).max() * m.n * np.abs(X).max()
    if not r <= t:
        raise Violation("not-the-minimum", f"residual {r:.3g}, tolerance "
                        f"{t:.3g}", **d)


def project(X):
    """Rows on the probability simplex."""
    u = -np.sort(-X, axis=1)
    c = (np.cumsum(u, axis=1) - 1) / np.arange(1, X.shape[1] + 1)
    k = np.sum(u > c, axis=1)
    return np.maximum(X - c[np.arange(len(X)), k - 1][:, None], 0)


def objective(X, Y, M, L, tau):
    return np.sum(np.square(M[:, None] * X - Y)) + tau * np.sum(X * (L @ X))


def simplex(X, Y, M, L, tau, eps, d):
    off = max(np.abs(X.sum(1) - 1).max(), -X.min())
    if not off <= 1e-9:
        raise Violation("not-in-the-simplex", f"off by {off:.3g}", **d)
    lip = 2 * (1 + tau * np.linalg.eigvalsh((L + L.T) / 2)[-1])
    A = np.diag(M.astype(float)) + tau * L
    Z = V = project(Y)
    t = 1.
    for _ in range(3000):
        Z1 = project(V - 2 * (A @ V - Y) / lip)
        t1 = (1 + (1 + 4 * t * t) ** .5) / 2
        V = Z1 + (t - 1) / t1 * (Z1 - Z)
        done = np.abs(Z1 - Z).max() < 1e-10 and t > 50
        Z, t = Z1, t1
        if done:
            break
    f, best = objective(X, Y, M, L, tau), objective(Z, Y, M, L, tau)
    start = objective(project(Y), Y, M, L, tau)
    if not f <= best + 1e-3 * (start - best) + 3e-6 * len(X):
        raise Violation("not-the-minimum", f"objective {f:.6g}, the minimum "
                        f"is {best:.6g}", **d)


# ------------------------------------------------------------------- solvers

@contextlib.contextmanager
def exhausted(iterations, fired):
    """The conjugate gradient stops after so many iterations."""
    from scipy.sparse import linalg
    real = linalg.cg

    def cg(*args, **kwargs):
        bound = inspect.signature(real).bind(*args, **kwargs)
        bound.arguments["maxiter"] = iterations
        x, info = real(*bound.args, **bound.kwargs)
        if info:
            fired.append(info)
        return x, info

    if iterations is None:
        yield
        return
    linalg.cg = cg
    try:
        yield
    finally:
        linalg.cg = real


# ------------------------------------------------------------------ histories

class History:
    def __init__(self, case, ctx, faults, record):
        self.case, self.ctx, self.record = case, ctx, record
        self.budget = {f["op"]: 1 + int(f["frac"] * 3) for f in faults or ()
                       if f["at"] == "budget"}
        self.sim = Sim(faults=[f for f in faults or () if f["at"] !=
                               "budget"], record=record, make_exc=make_exc)

    def main(self, th):
        case, ctx = self.case, self.ctx
        slots = [self.slot(spec) for spec in case["graphs"]]
        self.judged = 0
        for k, q in enumerate(case["ops"]):
            p = dict(q["p"])
            g = q["g"] % len(slots)
            d = dict(step=k, op=q["op"], graph=g)
            if q["op"] == "new":
                # (another graph, perhaps at the address of the former)
                slots[g] = s = data = None
                gc.collect(0)
                slots[g] = self.slot(p)
                continue
            s, data = slots[g]
            if q["op"] != "learn":
                o = ops.OPS[q["op"]]
                if not o.able(s, p):
                    continue
                try:
                    r = o.run(s, p)
                except ArpackError:
                    ctx.probe("genuine non-convergence")
                    continue
                o.settle(s, p, r)
                ctx.log(k, q["op"])
                continue
            tau = tau_of(s, p)
            spent, n_fired = [], len(self.sim.fired)
            got = err = None
            self.sim.begin_op(th, k)
            try:
                with exhausted(self.budget.get(k), spent):
                    got = call(s, data, p, tau)
            except (SimAbort, HarnessError, Violation):
                raise
            except BaseException as e:
                err = e
            finally:
                self.sim.end_op(th)
            fired = self.sim.fired[n_fired:]
            if fired:
                f = fired[0]
                d["fault"] = f"{f['exc']} at {f['where']}"
                ctx.fault(f"{f['exc']} at {f['at']}")
            if spent:
                d["fault"] = "conjugate gradient did not converge"
                ctx.fault(d["fault"])
            ctx.log(k, p["what"], type(err).__name__, d.get("fault"))
            ctx.state((p["what"], tau == 0, s.m.lap, s.spec["kind"],
                       case["data"][p["data"]]["frac"],
                       d.get("fault", "").split(":")[0]))
            self.arguments(data, d)
            if err is not None:
                if not fired and not spent:
                    self.refuse(err, d)
                ctx.probe("failed")
                # Again, without the fault.
                try:
                    got = call(s, data, p, tau)
                except Exception as e:
                    self.refuse(e, dict(d, retried=True))
                d["retried"] = True
                self.arguments(data, d)
            if not self.record:
                ctx.log(np.round(np.asarray(got, float), 3).tolist())
            judge(s, data, p, tau, got, d)
            self.judged += 1
            ctx.probe("solutions")
        if self.record:
            return
        for s, data in slots:
            if self.case["faults"]:
                ops.check_state(s, dict(step="end"))
            self.arguments(data, dict(step="end"))

    def slot(self, spec):
        s = ops.Slot(spec)
        return s, [Data(q, s.m) for q in self.case["data"]]

    def arguments(self, data, d):
        for j, x in enumerate(data):
            w = x.changed()
            if w:
                raise Violation("arguments-changed",
                                f"measurements {j}: {w}", **d)

    def refuse(self, e, d):
        import traceback
        raise Violation(f"unexpected-{type(e).__name__}", f"{e}",
                        traceback="".join(traceback.format_exception(
                            e))[-2000:], **d)


def run_history(case, ctx):
    faults = [f for f in case["faults"] if f["at"] == "budget"]
    if len(faults) < len(case["faults"]):
        h = History(case, ctx, None, True)
        seams.seed_entropy(case.get("entropy", 0))
        h.sim.run_inline(h.main)
        for f in case["faults"]:
            rec = {"call": h.sim.recorded_calls, "point": h.sim.recorded_ops,
                   "budget": {}}[f["at"]]
            total = len(rec.get((0, f["op"]), ()))
            if total:
                faults.append(dict(tid=0, op=f["op"], at=f["at"],
                                   n=1 + int(min(f["frac"], .9999) * total),
                                   exc=f["exc"]))
        seams.seed_entropy(case.get("entropy", 0))
    h = History(case, ctx, faults, False)
    try:
        h.sim.run_inline(h.main)
    finally:
        ctx.steps += h.sim.total
        ctx.log("digest", h.sim.digest)
    ctx.trivial = not h.judged


# -------------------------------------------------------------------- threads

class Together:
    def __init__(self, case, preempt, record):
        self.case = case
        self.s = ops.Slot(case["graphs"][0])
        # (several threads may leave any of their values)
        self.s.lmaxes = []
        self.data = [Data(q, self.s.m) for q in case["data"]]
        self.sim = Sim(preempt=preempt, record=record)
        self.results = []

    def body(self, t):
        def f(th):
            for k, q in enumerate(self.case["threads"][t]):
                p = dict(q["p"])
                got = err = None
                if q["op"] != "learn" and not ops.OPS[q["op"]].able(
                        self.s, p):
                    continue
                tau = tau_of(self.s, p) if q["op"] == "learn" else None
                try:
                    if q["op"] == "learn":
                        got = call(self.s, self.data, p, tau)
                    else:
                        ops.OPS[q["op"]].run(self.s, p)
                except (SimAbort, HarnessError):
                    raise
                except Exception as e:
                    err = e
                if q["op"] == "learn" or err is not None:
                    self.results.append((t, k, q, p, tau, got, err))
        return f

    def go(self):
        self.sim.run_threads([self.body(t) for t in (0, 1)])
        if isinstance(self.sim.abort, SimDeadlock):
            raise Violation("deadlock", str(self.sim.abort))
        if isinstance(self.sim.abort, StepBudgetExceeded):
            raise Violation("no-termination", str(self.sim.abort))

    def judge(self, ctx, d0):
        for j, x in enumerate(self.data):
            w = x.changed()
            if w:
                raise Violation("arguments-changed",
                                f"measurements {j}: {w}", **d0)
        for t, k, q, p, tau, got, err in self.results:
            d = dict(thread=t, step=k, op=q["op"], **d0)
            if world.genuine(err):
                continue
            if err is not None:
                raise Violation(f"unexpected-{type(err).__name__}",
                                f"{q['op']}: {err}", **d)
            judge(self.s, self.data, p, tau, got, d)
            ctx.probe("solutions")
            ctx.log(t, k, np.round(np.asarray(got, float), 3).tolist())


def run_threads(case, ctx):
    seams.seed_entropy(case.get("entropy", 0))
    first = Together(case, {}, True)
    first.go()
    first.judge(ctx, dict(schedule="no preemption"))
    preempt = {}
    for f in case["preempt"]:
        rec = first.sim.recorded.get(f["tid"], ())
        if rec:
            preempt[(f["tid"], 1 + position(f, rec))] = 1 - f["tid"]
    seams.seed_entropy(case.get("entropy", 0))
    x = Together(case, preempt, False)
    try:
        x.go()
    finally:
        ctx.steps += x.sim.total
    sw = [f"T{a}->T{b} at {w}" for a, b, w in x.sim.switches]
    for line in sw:
        ctx.fault("preemption")
        ctx.log(line)
    for a, b, w in x.sim.switches:
        ctx.state(("switch", w))
    ctx.log("digest", x.sim.digest)
    x.judge(ctx, dict(schedule=sw))
    ctx.trivial = not x.results


def run(case, ctx):
    try:
        if "threads" in case:
            if len(case["threads"]) == 2:
                run_threads(case, ctx)
        else:
            run_history(case, ctx)
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
