"""C11: random starting vectors and solver failures never corrupt results."""

import contextlib
import inspect
import random

import numpy as np
from scipy.sparse.linalg import ArpackError

from .. import ops, seams, world
from ..core import Violation
from ..world import close, dense

LEVEL = "exploration"
TECHNIQUE = ("the random stream of the eigensolvers' starting vectors and "
             "their iteration budget put under the simulator, against dense "
             "eigendecompositions")
NOTE = ("Each run repeats an estimation, a partial basis, a layout or a "
        "multiresolution from many starting vectors, drawn from seeded "
        "streams or chosen to be unlucky, and lets the real ARPACK run out "
        "of iterations or fail. Whether an estimate is an upper bound is a "
        "statistical statement: it is judged on the majority of the fair "
        "starting vectors of a run.")
RULE = ("A run is a graph and: 24 fair and 6 unlucky starting vectors of the "
        "estimate of the largest eigenvalue; or 6 of a partial basis or of "
        "an eigenmap layout; or 5 of a multiresolution; or a history of "
        "operations with an iteration budget of 1 to 3, or solver errors, "
        "in some of them, each of which must raise or be right, and be right "
        "when repeated. Non-trivial: a random starting vector was drawn or a "
        "solver failed. Distinctness: hash of the event log (values).")
STATES = ("(kind of run, kind of graph, Laplacian type, outcomes of the "
          "solvers) tuples")
REAL = "pygsp, SciPy's eigsh, eigs and ARPACK"
STUBS = ("the generator of starting vectors; the iteration budget given to "
         "ARPACK; ARPACK error codes")
ASSUMPTIONS = [
    "the starting vectors are drawn by SciPy from numpy.random.default_rng",
    "an estimate below the largest eigenvalue is tolerated for less than "
    "half of the fair starting vectors of a graph (at most 6% were measured)",
]
QUICK = dict(cases=6000, seconds=85, batch=20)
THOROUGH = dict(cases=200000, seconds=780, batch=40)

KINDS = ["er", "er_w", "er_dir", "path", "ring", "star", "complete",
         "two", "tree", "sbm_w", "int", "f32"]


def gen(rng, i, tier):
    kind = rng.choice(["lmax", "lmax", "lmax", "basis", "layout", "levels",
                       "budget", "budget", "budget"])
    n = (9, 24) if kind in ("basis", "layout", "levels") or \
        rng.random() < .7 else (20, 70)
    if kind == "budget":
        n = (12, 30)
    spec = world.spec_graph(rng, KINDS, nmin=n[0], nmax=n[1],
                            scales=kind != "levels")
    case = dict(kind=kind, graphs=[spec], k=rng.choice([2, 3, 4, 5, 6, 0, -1, -2]),
                how=rng.choice(["estimate", "lmax", "filter", "after"]))
    if kind == "budget":
        seq = []
        for _ in range(rng.randint(1, 4)):
            name = rng.choice(BUDGET)
            p = ops.OPS[name].gen(rng, spec) if name in ops.OPS else \
                dict(kind=name)
            if name == "filt":
                p.update(method="chebyshev")
            seq.append(dict(op=name, p=p, solver=rng.choice(
                [None, 1, 1, 1, 2, 3, "error"])))
        case["ops"] = seq
    return case


BUDGET = ["lmax", "estimate", "estimate", "partial_basis", "partial_basis",
          "full_basis", "laplacian", "filt", "heat", "pyramid", "eigenmap2D",
          "eigenmap3D", "spectrogram", "frame", "gabor", "basis"]


# ------------------------------------------------------------------ the seams

class Starts:
    """Generator given to ARPACK: its first draw is the starting vector."""

    def __init__(self, seed, vector=None):
        self.rng = seams._real_default_rng(seed)
        self.vector = vector
        self.draws = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        self.draws += 1
        x = self.rng.uniform(low, high, size)
        if self.vector is not None and self.draws == 1 and \
                np.shape(x) == np.shape(self.vector):
            x = np.clip(self.vector / np.max(np.abs(self.vector)), low, high)
        return x


def unlucky(r, m, kind):
    e, U = m.eig()
    x = r.uniform(-1, 1, size=m.n)
    if kind == "orthogonal":
        # nothing, up to rounding, along the largest eigenvalue
        top = U[:, e > e[-1] * (1 - 1e-9)]
        x = x - top @ (top.T @ x)
    elif kind == "weak":
        top = U[:, -1:]
        x = x - top @ (top.T @ x) * (1 - 1e-4)
    elif kind == "unit":
        x = np.zeros(m.n)
        x[int(r.integers(m.n))] = 1
    elif kind == "signs":
        x = np.sign(x)
    return x


@contextlib.contextmanager
def limited(solver, fired):
    """ARPACK gives up after so many iterations, or reports an error."""
    from scipy.sparse.linalg._eigen.arpack import arpack
    cls = arpack._ArpackParams
    real = cls.__init__
    sig = inspect.signature(real)

    def init(self, *args, **kwargs):
        if solver == "error":
            fired.append("ArpackError")
            raise ArpackError(-9999)
        bound = sig.bind(self, *args, **kwargs)
        bound.arguments["maxiter"] = solver
        fired.append("iteration budget")
        return real(*bound.args, **bound.kwargs)

    if solver is None:
        yield
        return
    cls.__init__ = init
    try:
        yield
    finally:
        cls.__init__ = real


# ----------------------------------------------------------------------- runs

def known(G, name):
    """What is cached, without computing it."""
    return G.__dict__.get(name)


def rel(m):
    return m.near(1e-4, 1e-7)


def fresh(G):
    """The same graph, of which nothing is known yet."""
    from pygsp import graphs
    return graphs.Graph(G.W, lap_type=G.lap_type, coords=G.coords)


def estimate(G, how):
    from pygsp import filters
    if how == "estimate":
        G.estimate_lmax()
    elif how == "filter":
        filters.Filter(G, lambda x: 1 / (1 + x)).filter(np.ones(G.N))
    elif how == "after":
        G.estimate_lmax("bounds")
        G.estimate_lmax("lanczos")
    return float(G.lmax)


def run_lmax(case, ctx, G, m):
    r = world.nprng("starts", case["graphs"][0]["seed"])
    e = m.eig()[0]
    t = e[-1]
    values, failed = [], 0
    kinds = ["fair"] * 24 + ["orthogonal"] * 2 + ["weak"] * 2 + \
        ["unit", "signs"]
    for j, kind in enumerate(kinds):
        g = fresh(G)
        start = Starts(int(r.integers(2**32)), None if kind == "fair" else
                       unlucky(r, m, kind))
        d = dict(start=j, kind=kind, how=case["how"])
        with seams.arpack_starts(start):
            try:
                v = estimate(g, case["how"])
            except (ValueError, ArpackError) as exc:
                ctx.fault(f"solver failed ({kind})")
                failed += kind == "fair"
                ctx.log(j, type(exc).__name__)
                continue
            again = float(g.lmax)
            g.estimate_lmax()
        ctx.fault(f"starting vector ({kind})") if kind != "fair" else \
            ctx.probe("fair starting vectors")
        ctx.log(j, repr(v))
        if again != v or float(g.lmax) != v:
            raise Violation("estimate-changed", f"{v}, then {again}, then "
                            f"{g.lmax}", **d)
        if not np.isfinite(v) or v > 1.01 * t * (1 + rel(m)):
            raise Violation("estimate-too-large", f"{v!r}: the largest "
                            f"eigenvalue is {t!r}", **d)
        if start.draws:
            off = np.min(np.abs(v / 1.01 - e))
            if off > (.0055 + rel(m)) * t:
                raise Violation(
                    "estimate-inaccurate", f"{v!r} / 1.01 is {off:.3g} away "
                    f"from the closest eigenvalue (largest: {t!r})", **d)
        if kind == "fair":
            values.append(v)
    low = [v for v in values if v < t * (1 - rel(m))]
    ctx.probe("fair estimates below the largest eigenvalue", len(low))
    ctx.state((case["graphs"][0]["kind"], m.lap, case["how"], len(low),
               failed, m.n))
    if failed > 12:
        raise Violation("estimate-fails", f"{failed} of 24 fair starting "
                        f"vectors")
    if len(low) > 12:
        raise Violation("estimate-not-a-bound", f"{len(low)} of {len(values)} "
                        f"fair starting vectors give less than {t!r}: "
                        f"{low[:5]}")


def run_basis(case, ctx, G, m):
    spec = case["graphs"][0]
    r = world.nprng("starts", spec["seed"])
    k = case["k"]
    # (a few, many, or all but a few)
    k = min(k, m.n - 2) if k > 0 else m.n // 2 if k == 0 else m.n + k
    et = m.eig()[0]
    missed, done, full = 0, 0, []
    kinds = ["fair"] * 6 + ["weak", "unit"]
    for j, kind in enumerate(kinds):
        g = fresh(G)
        start = Starts(int(r.integers(2**32)), None if kind == "fair" else
                       unlucky(r, m, kind))
        d = dict(start=j, kind=kind)
        with seams.arpack_starts(start):
            if j < 2:
                g2 = fresh(G)
                g2.compute_fourier_basis()
                full.append((g2.e, g2.U, g2.lmax))
            try:
                if case["kind"] == "layout":
                    dim = 2 + abs(case["k"]) % 2
                    g.set_coordinates(f"laplacian_eigenmap{dim}D")
                    k = dim + 1
                else:
                    g.compute_fourier_basis(k)
            except ArpackError as exc:
                ctx.fault("solver failed")
                ctx.log(j, type(exc).__name__)
                d["failed"] = True
                if known(g, "_U") is not None or known(g, "_e") is not None:
                    raise Violation("failed-basis-kept", str(known(g, "_e")), **d)
                continue
            except AssertionError as exc:
                # the smallest eigenvalue was missed, and it was reported
                ctx.fault("zero not found")
                if kind == "fair":
                    missed += 1
                continue
        done += kind == "fair"
        ctx.probe("starting vectors")
        U, e = np.array(g.U), np.array(g.e)
        # (as many as asked for, which are all from N on)
        world.check_basis(g, m, min(k, m.n), U, e, strict=False, **d)
        if case["kind"] == "layout":
            close("eigenmap", g.coords, U[:, 1:k], 0, **d)
        off = np.max(np.abs(e - et[:len(e)]))
        if off > m.tol(1e5) and kind == "fair":
            missed += 1
        ctx.log(j, len(e), [float(f"{x:.6g}") for x in e])
        # the largest eigenvalue is not that of a partial basis
        world.check_lmax(g, m, None, **d)
    ctx.state((case["kind"], spec["kind"], m.lap, done, missed))
    if full[0][2] != full[1][2] or (full[0][0] != full[1][0]).any() or \
            (full[0][1] != full[1][1]).any():
        raise Violation("full-basis-random", "a full basis depends on random "
                        "numbers")
    if m.simple_spectrum() and missed > 3:
        raise Violation("basis-not-smallest", f"{missed} of 6 fair starting "
                        f"vectors miss one of the {k} smallest eigenvalues")


def run_levels(case, ctx, G, m):
    from pygsp import reduction
    keep = ops.polarity(m) if not m.directed and m.connected else None
    if keep is None or m.lap != "combinatorial" or m.f32:
        ctx.trivial = True
        return
    r = world.nprng("starts", case["graphs"][0]["seed"])
    L = m.L()
    out = np.setdiff1d(np.arange(m.n), keep)
    S = L[np.ix_(keep, keep)] - L[np.ix_(keep, out)] @ np.linalg.solve(
        L[np.ix_(out, out)], L[np.ix_(out, keep)])
    right = 0
    for j in range(5):
        g = fresh(G)
        with seams.arpack_starts(Starts(int(r.integers(2**32)))):
            try:
                Gs = reduction.graph_multiresolution(g, 1, sparsify=False)
            except (ValueError, ArpackError):
                ctx.fault("solver failed")
                continue
        ctx.probe("starting vectors")
        idx = np.asarray(Gs[1].mr["idx"])
        ctx.log(j, idx)
        if len(idx) == len(keep) and (idx == keep).all():
            right += 1
            close("reduced Laplacian", Gs[1].L, S, 1e3 * m.tol())
    ctx.state(("levels", case["graphs"][0]["kind"], right, len(keep)))
    if right < 3:
        raise Violation("levels-random", f"{5 - right} of 5 fair starting "
                        f"vectors keep other vertices than {keep.tolist()}")


def other_op(s, p):
    """Operations that are not in ops: (what they return, their check)."""
    from pygsp import features
    if p["kind"].startswith("eigenmap"):
        s.G.set_coordinates("laplacian_" + p["kind"])
        s.coords = np.array(s.G.coords)
        k = int(p["kind"][-2]) + 1
        if not s.partial and (known(s.G, "_e") is None or
                              len(s.G.e) < s.n):
            s.partial = True
        U, e = s.G.U, s.G.e

        def check(d):
            world.check_basis(s.G, s.m, U.shape[1], U, e, strict=False, **d)
            close("eigenmap", s.coords, U[:, 1:k], 0, **d)
        return check
    lm = float(s.G.lmax)
    sp = features.compute_spectrogram(s.G, M=4)

    def check(d):
        if sp.shape != (s.n, 4) or not np.isfinite(sp).all():
            raise Violation("spectrogram-wrong", f"{sp.shape}", **d)
        world.check_lmax(s.G, s.m, None, lm, **d)
    return check


def run_budget(case, ctx):
    s = ops.Slot(case["graphs"][0])
    r = random.Random(case["graphs"][0]["seed"])
    for k, q in enumerate(case["ops"]):
        fired = []
        p = dict(q["p"])
        o = ops.OPS.get(q["op"])
        d = dict(step=k, op=q["op"], solver=q["solver"])
        if o is not None and not o.able(s, p):
            continue
        if o is None and q["op"].startswith("eigenmap") and s.partial:
            continue
        lm0 = known(s.G, "_lmax")

        def once():
            if o is not None:
                return o.run(s, p)
            return other_op(s, p)

        start = Starts(r.getrandbits(32))
        res = err = None
        with limited(q["solver"], fired), seams.arpack_starts(start):
            try:
                res = once()
            except (ArpackError, ValueError, AssertionError) as e:
                err = e
        ctx.log(k, q["op"], len(fired), type(err).__name__)
        ctx.state(("budget", q["op"], q["solver"], type(err).__name__,
                   s.m.lap, case["graphs"][0]["kind"]))
        if fired:
            ctx.fault(f"{fired[0]} ({q['solver']})")
        if err is not None and not fired:
            if isinstance(err, ArpackError) and q["op"] in (
                    "partial_basis", "eigenmap2D", "eigenmap3D"):
                ctx.probe("genuine non-convergence")
                continue
            raise Violation(f"unexpected-{type(err).__name__}",
                            f"{q['op']} without failure: {err}", **d)
        if fired and err is None and q["solver"] == "error" and \
                q["op"] not in ops.OPS:
            ctx.probe("survived a solver error")
        if err is None:
            # It says that it worked: then it is right.
            settle(s, o, p, res, d)
            continue
        ctx.probe("failures reported")
        if isinstance(err, ValueError) and "converge" not in str(err):
            raise Violation("failure-obscure", f"{q['op']}: {err}", **d)
        # What was known is still there, or gone, but never half of it.
        lm1 = known(s.G, "_lmax")
        if lm1 is not None and lm0 is not None and lm1 != lm0:
            world.check_lmax(s.G, s.m, None, lm1, **d)
        with seams.arpack_starts(Starts(r.getrandbits(32))):
            try:
                v = float(s.G.lmax)
            except ValueError:
                v = None
            if v is not None:
                world.check_lmax(s.G, s.m, None, v, **d)
            if known(s.G, "_U") is not None:
                U, e = s.G.U, s.G.e
                s.partial = U.shape[1] < s.n
                world.check_basis(s.G, s.m, U.shape[1], U, e, strict=False,
                                  **d)
            if o is not None and not o.able(s, p):
                continue
            try:
                res = once()
            except ArpackError:
                ctx.probe("genuine non-convergence")
                continue
            settle(s, o, p, res, dict(d, retried=True))
            ctx.probe("retried")
    try:
        ops.check_state(s, dict(step="end"))
    except ArpackError:
        pass
    ctx.trivial = not ctx.faults


def settle(s, o, p, res, d):
    if o is None:
        return res(d)
    o.settle(s, p, res)
    if o.name == "partial_basis":
        U, e = res
        world.check_basis(s.G, s.m, U.shape[1], U, e, strict=False, **d)
    else:
        o.check(s, p, res, d)


def run(case, ctx):
    spec = case["graphs"][0]
    if case["kind"] == "budget":
        return run_budget(case, ctx)
    G, m = world.build(spec, coords=True)
    dict(lmax=run_lmax, basis=run_basis, layout=run_basis,
         levels=run_levels)[case["kind"]](case, ctx, G, m)
