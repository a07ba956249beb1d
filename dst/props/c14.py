"""C14: multiresolution pyramids reconstruct, and reduce faithfully."""

import contextlib
import traceback

import numpy as np
from scipy import sparse
from scipy.sparse.linalg import ArpackError

from .. import ops, seams, snap, world
from ..core import HarnessError, Violation
from ..kernel import (Sim, SimAbort, SimDeadlock, StepBudgetExceeded,
                      position)
from ..world import close, dense

LEVEL = "exploration"
TECHNIQUE = ("seeded search over histories and interleavings of reductions, "
             "pyramids and everything else done to the graphs they share, "
             "with exceptions, interrupts and adversarial random streams")
NOTE = ("One graph, the levels of its multiresolutions and their reductions "
        "live together: pyramids are analysed and synthesised while bases, "
        "Laplacians and other multiresolutions of the same graphs come and "
        "go, calls fail and are repeated, threads interleave, and "
        "sparsification draws from legal but unlikely random streams. "
        "Everything is compared with dense Schur complements and functional "
        "calculus.")
RULE = ("A run is one graph and 3 to 9 operations on it and on what was "
        "derived from it, with 0 to 3 faults, every failed operation being "
        "repeated; or two threads of 1 or 2 operations on one "
        "multiresolution with 1 to 4 preemptions. Non-trivial: a reduction, "
        "a pyramid, an interpolation or a sparsification was judged. "
        "Distinctness: hash of the event log.")
STATES = "(operation, options, kind of graph, level, fault) tuples"
REAL = "pygsp, SciPy; real threads"
STUBS = ("thread scheduler; library calls chosen to fail; uniform draws of "
         "the sparsification; starting vectors of the eigensolver")
ASSUMPTIONS = [
    "weights of ordinary magnitude (between 0.01 and 100)",
    "a multiresolution may fail on levels that degenerate (3 vertices or "
    "less, or eigenvectors without a definite polarity)",
    "pyramids reconstruct exactly if the largest eigenvalues and the "
    "Laplacians are the same in the synthesis as in the analysis; otherwise "
    "only the interpolation of every level is judged",
    "pyramids are synthesised directly (not by least squares)",
]
QUICK = dict(cases=6000, seconds=90, batch=40)
THOROUGH = dict(cases=300000, seconds=780, batch=60)

KINDS = ["er", "er_w", "er_w", "path", "ring", "star", "complete", "tree",
         "sbm_w", "int"]
TOUCH = ["lmax", "estimate", "full_basis", "full_basis", "partial_basis", "D",
         "diff", "signal", "coordinates", "laplacian", "laplacian", "battery",
         "filt", "gft", "grad", "subgraph", "regression"]
LAZY = ["lmax", "diff", "D", "battery", "structure"]
EXCS = ["MemoryError", "RuntimeError", "LinAlgError", "KeyboardInterrupt"]
STREAMS = ["fair", "same", "two", "extremes", "even"]


def gen_multi(rng):
    return dict(levels=rng.choice([1, 1, 2, 2, 3]),
                sparsify=rng.random() < .4,
                eps=rng.choice([None, None, .3, .6]),
                full=rng.random() < .3,
                reg=rng.choice([None, None, .005, .05, .5]),
                stream=rng.choice(STREAMS[:4]), draw=rng.getrandbits(16))


def gen_analysis(rng):
    return dict(chain=rng.randrange(4), seed=rng.getrandbits(16),
                cols=rng.choice([0, 0, 0, 0, 1, 2, 3]),
                dtype=rng.choice(["f8", "f8", "f8", "f4", "i8"]),
                filters=rng.choice(["default", "lambda", "one", "list"]),
                order=rng.choice([None, None, None, 40]),
                reg=rng.choice([None, None, .05, .5]),
                exact=rng.random() < .3)


def gen_op(rng, spec, k):
    op = rng.choice(["multi"] * 3 + ["analysis"] * 5 + ["synthesis"] * 4 +
                    ["touch"] * 5 + ["kron"] * 2 + ["sparsify"] * 2 +
                    ["interpolate"] * 2 + ["refused"])
    if k == 0 and rng.random() < .7:
        op = "multi"
    p = dict(slot=rng.choice([0, 0, rng.randrange(8)]))
    if op == "multi":
        p.update(gen_multi(rng))
    elif op == "analysis":
        p.update(gen_analysis(rng))
    elif op == "synthesis":
        p.update(pending=rng.randrange(4),
                 other=rng.choice([None, None, None, "order", "reg",
                                   "short"]))
    elif op == "touch":
        p["op"] = rng.choice(TOUCH)
        p["p"] = ops.OPS[p["op"]].gen(rng, spec)
    elif op == "kron":
        p.update(seed=rng.getrandbits(16),
                 how=rng.choice(["sorted", "sorted", "any", "list"]),
                 matrix=rng.choice([None, None, "csr", "csc"]),
                 reg=rng.choice([0, .005, .5]), quotient=rng.random() < .5)
    elif op == "sparsify":
        p.update(eps=round(rng.random(), 3), seed=rng.getrandbits(16),
                 how=rng.choice(["int", "int", "state", "generator", "none"]),
                 matrix=rng.choice([None, None, None, "csr", "csc"]),
                 stream=rng.choice(STREAMS), maxiter=rng.choice([10, 10, 1, 2]))
    elif op == "interpolate":
        p.update(seed=rng.getrandbits(16), order=rng.choice([None, 30, 60]),
                 reg=rng.choice([None, .05, .5]), exact=rng.random() < .4,
                 cols=rng.choice([0, 0, 1, 2, 3]),
                 how=rng.choice(["sorted", "any", "list"]))
    return dict(op=op, p=p)


def gen(rng, i, tier):
    large = rng.random() < .1
    spec = world.spec_graph(rng, KINDS, nmin=5, nmax=40 if large else 14,
                            scales=False, laps=False)
    case = dict(graph=spec)
    if rng.random() < .2:
        case["multi"] = dict(gen_multi(rng), sparsify=False)
        threads = []
        for t in range(2):
            seq = []
            for _ in range(rng.randint(1, 2)):
                op = rng.choice(["pyramid"] * 3 + ["interpolate", "kron",
                                                   "multi", "touch"])
                p = dict(slot=rng.randrange(3))
                if op == "pyramid":
                    p.update(gen_analysis(rng))
                elif op == "multi":
                    p.update(gen_multi(rng), sparsify=False, slot=0)
                elif op == "touch":
                    p["op"] = rng.choice(LAZY)
                    p["p"] = ops.OPS[p["op"]].gen(rng, spec)
                else:
                    while True:
                        q = gen_op(rng, spec, 1)
                        if q["op"] == op:
                            break
                    p.update(q["p"], slot=p["slot"])
                seq.append(dict(op=op, p=p))
            threads.append(seq)
        case["threads"] = threads
        case["preempt"] = [dict(tid=rng.randrange(2),
                                by=rng.choice(["step", "place"]),
                                frac=round(rng.random(), 5))
                           for _ in range(rng.randint(1, 4))]
        return case
    case["ops"] = [gen_op(rng, spec, k) for k in range(rng.randint(3, 9))]
    case["faults"] = [
        dict(op=rng.randrange(len(case["ops"])), at=at,
             frac=round(rng.random(), 5),
             exc="KeyboardInterrupt" if at == "point" else rng.choice(EXCS))
        for at in (rng.choice(["call", "call", "point"])
                   for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])))]
    return case


def make_exc(name):
    if name == "LinAlgError":
        return np.linalg.LinAlgError("simulated")
    return {"MemoryError": MemoryError, "RuntimeError": RuntimeError,
            "KeyboardInterrupt": KeyboardInterrupt}[name]("simulated fault")


# ------------------------------------------------------------- random streams

class Stream(seams._RealRandomState):
    """Uniform draws that are legal, if unlikely."""

    def __init__(self, mode, seed):
        super().__init__(seed)
        self.mode, self.asked = mode, []

    def uniform(self, low=0.0, high=1.0, size=None):
        u = super().uniform(low, high, size)
        if size is None:
            return u
        u, shape = np.ravel(u), np.shape(u)
        self.asked.append(len(u))
        unit = (u - low) / (high - low)
        if len(u) == 0:
            pass
        elif self.mode == "same":
            unit[:] = unit[0]
        elif self.mode == "two":
            unit = np.where(unit < .5, unit[0], unit[-1])
        elif self.mode == "extremes":
            unit = np.where(unit < .5, 0, 1 - 2 ** -53)
        elif self.mode == "even":
            unit = (np.arange(len(u)) + .5) / len(u)
        return (low + (high - low) * unit).reshape(shape)


@contextlib.contextmanager
def global_stream(stream):
    """What an unseeded sparsification draws from."""
    was = np.random.mtrand._rand
    np.random.mtrand._rand = stream
    try:
        yield
    finally:
        np.random.mtrand._rand = was


# -------------------------------------------------------------------- oracles

def schur(L, ind):
    ind = np.asarray(ind)
    out = np.setdiff1d(np.arange(len(L)), ind)
    if len(out) == 0:
        return L[np.ix_(ind, ind)]
    return L[np.ix_(ind, ind)] - L[np.ix_(ind, out)] @ np.linalg.solve(
        L[np.ix_(out, out)], L[np.ix_(out, ind)])


def definite(L, ind):
    """The eliminated vertices are well attached to the kept ones."""
    out = np.setdiff1d(np.arange(len(L)), ind)
    return len(out) == 0 or \
        np.linalg.eigvalsh(L[np.ix_(out, out)])[0] > 1e-6 * np.abs(L).max()


def resistances(L):
    P = np.linalg.pinv((L + L.T) / 2, rcond=1e-10, hermitian=True)
    g = np.diag(P)
    return g[:, None] + g[None] - P - P.T


def adopt(G, spec):
    """A slot for a graph that the package made."""
    s = ops.Slot.__new__(ops.Slot)
    s.spec = spec
    s.G, s.m = G, world.Model(dense(G.W), G.lap_type)
    s.coords = np.array(G.coords) if hasattr(G, "coords") else None
    s.signals, s.banks = {}, {}
    s.partial, s.lmaxes = False, None
    return s


def kept(p, n, m):
    """Vertices to keep; every component keeps one."""
    r = world.nprng("kept", p["seed"], n)
    ind = list(r.choice(n, size=int(r.integers(2, max(n - 1, 3))),
                        replace=False))
    if p["how"] != "any":
        ind.sort()
    return [int(j) for j in ind] if p["how"] == "list" else np.array(ind)


def sparser(name, L, W, d):
    """W is a sparsification of the graph with Laplacian L."""
    W0 = np.diag(np.diag(L)) - L
    scale = np.abs(W0).max()
    if W.shape != W0.shape or (W != W.T).any() or (W < 0).any() or \
            not np.isfinite(W).all() or np.diag(W).any():
        raise Violation("sparsified-wrong", f"{name}: not the weights of an "
                        "undirected graph", **d)
    new = (W > 1e-9 * scale) & (W0 < 1e-12 * scale)
    if new.any():
        raise Violation("sparsified-wrong", f"{name}: new edges "
                        f"{np.argwhere(new)[:4].tolist()}", **d)
    R = resistances(L)
    a, b = np.sum(W * R) / 2, np.sum(np.maximum(W0, 0) * R) / 2
    if not abs(a - b) <= 1e-6 * b:
        raise Violation("sparsified-wrong", f"{name}: sum of weights times "
                        f"resistances is {a:.6g} instead of {b:.6g}", **d)


# --------------------------------------------------------------- the machinery

def filters_of(p, scale, levels):
    """(argument, kernels by level)"""
    def k(t):
        return lambda x: 1 / (1 + t * x / scale)
    if p["filters"] == "default":
        return {}, [lambda x: 1 / (2 * x + 1)] * levels
    if p["filters"] == "lambda":
        f = k(1.)
        return dict(h_filters=f), [f] * levels
    if p["filters"] == "one":
        f = k(2.)
        return dict(h_filters=[f]), [f] * levels
    fs = [k(1. + i) for i in range(levels)]
    return dict(h_filters=fs), fs


class Chain:
    """A multiresolution, and what it was made of."""

    def __init__(self, slots, Gs):
        self.slots, self.Gs = slots, Gs
        self.idx = [np.array(g.mr["idx"]) for g in Gs[1:]]

    def check(self, d):
        for i, g in enumerate(self.Gs[1:]):
            if not np.array_equal(g.mr["idx"], self.idx[i]):
                raise Violation("level-changed", f"level {i + 1} forgot its "
                                "vertices", **d)


class World:
    """What is common to histories and threads."""

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.root = ops.Slot(case["graph"])
        self.root.dirty = False
        self.slots = [self.root]
        self.chains, self.pending = [], []
        self.judged = 0
        c = self.root.m.dw.max()
        self.scale = c

    def slot(self, p):
        return self.slots[p["slot"] % len(self.slots)]

    def proper(self, s):
        m = s.m
        return m.n >= 4 and not m.directed and not m.loops and m.connected

    # ---------------------------------------------------- multiresolutions

    def multi_call(self, s, p, levels):
        from pygsp import reduction
        kw = {}
        if p["reg"] is not None:
            kw["reg_eps"] = p["reg"]
        if p["eps"] is not None:
            kw["sparsify_eps"] = p["eps"]
        with global_stream(Stream(p["stream"], p["draw"])) \
                if p["sparsify"] else contextlib.nullcontext():
            return reduction.graph_multiresolution(
                s.G, levels, sparsify=p["sparsify"],
                compute_full_eigen=p["full"], **kw)

    def multi_judge(self, s, p, levels, Gs, d, shared=False):
        reg = .005 if p["reg"] is None else p["reg"]
        if len(Gs) != levels + 1:
            raise Violation("levels-wrong", f"{len(Gs) - 1} levels", **d)
        if p["full"]:
            s.partial = False
        top = s
        if Gs[0] is not s.G:
            top = adopt(Gs[0], s.spec)
            # (a copy, which shares the signals)
            top.partial, top.signals = s.partial, s.signals
            close("weights", Gs[0].W, s.m.W, 0, key="level-wrong", **d)
        slots = [top]
        orig = np.arange(s.n)
        for what in ("idx", "orig_idx"):
            if not np.array_equal(Gs[0].mr[what], orig):
                raise Violation("level-wrong", f"{what} of the first", **d)
        for i in range(1, levels + 1):
            P, C = slots[i - 1], Gs[i]
            e = dict(d, level=i)
            m = P.m
            idx = np.asarray(C.mr["idx"])
            if not (idx.ndim == 1 and len(idx) == C.N and 0 < len(idx) and
                    idx[0] == 0 and (np.diff(idx) > 0).all() and
                    idx[-1] < m.n):
                raise Violation("level-wrong", f"vertices {idx}", **e)
            want = ops.polarity(m)
            if want is not None and not np.array_equal(idx, want):
                raise Violation("level-wrong", f"vertices {idx} instead of "
                                f"{want}", **e)
            orig = orig[idx]
            if not np.array_equal(C.mr["orig_idx"], orig):
                raise Violation("level-wrong", f"original vertices "
                                f"{C.mr['orig_idx']} instead of {orig}", **e)
            if C.mr["level"] != i - 1:
                raise Violation("level-wrong", f"level {C.mr['level']}", **e)
            if P.coords is not None:
                close("coordinates", C.coords, P.coords[idx], 0,
                      key="level-wrong", **e)
            if C.lap_type != "combinatorial":
                raise Violation("level-wrong", C.lap_type, **e)
            L = m.L()
            if definite(L, idx):
                S = schur(L, idx)
                if p["sparsify"] and C.N > 4:
                    sparser("level", S, dense(C.W), e)
                else:
                    close("level", C.L, S, 100 * m.tol(), key="kron-wrong",
                          **e)
            else:
                self.ctx.probe("indefinite level")
            if not shared or i > 1:
                self.remembered(Gs[i - 1], m, idx, reg, e)
            c = adopt(C, s.spec)
            if c.n >= 4 and c.m.connected:
                world.check_lmax(C, c.m, None, **e)
                if p["full"]:
                    world.check_basis(C, c.m, **e)
            slots.append(c)
        self.judged += 1
        self.ctx.probe("multiresolutions")
        return Chain(slots, Gs)

    def remembered(self, G, m, idx, reg, e):
        """What a level keeps for the next one."""
        close("regularised level", G.mr["K_reg"],
              schur(m.L() + reg * np.eye(m.n), idx), 100 * m.tol() +
              1e-9 * reg, key="remembered-wrong", **e)
        x = np.linspace(0, m.lmax(), 7)
        close("green kernel", G.mr["green_kernel"].evaluate(x),
              1 / (reg + x)[None], 1e-9 / reg, key="remembered-wrong", **e)
        if G.mr["green_kernel"].G is not G:
            raise Violation("remembered-wrong", "green kernel of another "
                            "graph", **e)

    # ------------------------------------------------------------- pyramids

    def able(self, chain, p):
        # (the Chebyshev approximation needs edges)
        return not (p["exact"] and any(s.partial for s in chain.slots[:-1])
                    ) and all(s.m.W.any() for s in chain.slots[:-1])

    def signal(self, chain, p):
        n = chain.slots[0].n
        x = world.signal(p["seed"], n, *([p["cols"]] if p["cols"] else []))
        return (x * 10).astype(p["dtype"])

    def options(self, p):
        kw = {}
        if p["order"] is not None:
            kw["order"] = p["order"]
        if p["reg"] is not None:
            kw["reg_eps"] = p["reg"]
        if p["exact"]:
            kw["method"] = "exact"
        return kw

    def lmaxes(self, chain, p):
        return [None if p["exact"] else float(s.G.lmax)
                for s in chain.slots[:-1]]

    def predict(self, m, idx, f, reg, order, lm):
        """(interpolation, its accuracy)"""
        f = np.asarray(f, float).reshape(len(idx), -1)
        up = np.zeros((m.n, f.shape[1]))
        up[idx] = schur(m.L() + reg * np.eye(m.n), idx) @ f
        g = [lambda x: 1 / (reg + x)]
        y = ops.reference(m, g, up, lm, None if lm is None else order)[..., 0]
        t = 1e-8 / reg if lm is None else ops.slack(m, g, lm, order)
        return y, t * (np.abs(up).max() + 1e-3)

    def analysis_judge(self, chain, p, x, ca, pe, lms, d):
        levels = len(chain.Gs) - 1
        if len(ca) != levels + 1 or len(pe) != levels:
            raise Violation("pyramid-wrong", f"{len(ca)} and {len(pe)} "
                            "coefficients", **d)
        close("first coefficients", ca[0], x, 0, key="pyramid-wrong", **d)
        reg = .005 if p["reg"] is None else p["reg"]
        _, hs = filters_of(p, self.scale, levels)
        for i in range(levels):
            m, e = chain.slots[i].m, dict(d, level=i)
            f = np.asarray(ca[i], float).reshape(m.n, -1)
            o = p["order"] or 30
            low = ops.reference(m, [hs[i]], f, lms[i], None if lms[i] is None
                                else o)[..., 0][chain.idx[i]]
            t = 1e-7 if lms[i] is None else \
                max(1e-7, ops.slack(m, [hs[i]], lms[i], o))
            t = t * (np.abs(f).max() + 1)
            if np.size(ca[i + 1]) != low.size:
                raise Violation("pyramid-wrong", "shape of the coefficients "
                                f"{np.shape(ca[i + 1])}", **e)
            close("coarse approximation", np.reshape(ca[i + 1], low.shape),
                  low, t, key="pyramid-wrong", **e)
            pred, t = self.predict(m, chain.idx[i], ca[i + 1], reg,
                                   p["order"] or 100, lms[i])
            if np.shape(pe[i]) != np.shape(ca[i]):
                raise Violation("pyramid-wrong", "shape of the error "
                                f"{np.shape(pe[i])}", **e)
            close("prediction error", np.reshape(pe[i], f.shape), f - pred,
                  t + 1e-7, key="pyramid-wrong", **e)
        self.judged += 1
        self.ctx.probe("analyses")

    def synthesis_judge(self, chain, p, pe, y, cs, lms, d):
        """p: the options of the synthesis"""
        levels = len(chain.Gs) - 1
        reg = .005 if p["reg"] is None else p["reg"]
        if len(cs) != levels + 1:
            raise Violation("pyramid-wrong", f"{len(cs)} levels", **d)
        close("reconstruction", y, cs[0], 0, key="pyramid-wrong", **d)
        size = 0
        for i in range(levels):
            pred, t = self.predict(chain.slots[i].m, chain.idx[i], cs[i + 1],
                                   reg, p["order"] or 100, lms[i])
            if np.shape(cs[i]) != np.shape(pe[i]):
                raise Violation("pyramid-wrong", "shape of the synthesis "
                                f"{np.shape(cs[i])}", **dict(d, level=i))
            size = max(size, np.abs(pred).max(), np.abs(cs[i + 1]).max())
            close("synthesis", np.reshape(cs[i], pred.shape), pred +
                  np.reshape(pe[i], pred.shape), t + 1e-7 +
                  1e-12 * np.abs(pe[i]).max(), key="pyramid-wrong",
                  **dict(d, level=i))
        self.judged += 1
        self.ctx.probe("syntheses")
        return size

    def same(self, x, y, size, d):
        close("reconstruction", np.reshape(y, np.shape(x)), x, 1e-7 *
              (1 + np.abs(x).max()) + 1e-10 * size, key="not-reconstructed",
              **d)
        self.ctx.probe("reconstructions")

    # -------------------------------------------------------------- the rest

    def kron_call(self, s, p):
        from pygsp import reduction
        ind = kept(p, s.n, s.m)
        if p["matrix"]:
            L = getattr(sparse, p["matrix"] + "_matrix")(
                s.m.L() + p["reg"] * np.eye(s.n))
            return ind, L, reduction.kron_reduction(L, ind)
        return ind, None, reduction.kron_reduction(s.G, ind)

    def kron_judge(self, s, p, r, d):
        from pygsp import reduction
        ind, L, g = r
        if not np.array_equal(ind, kept(p, s.n, s.m)):
            raise Violation("arguments-changed", "vertices to keep", **d)
        Lw = s.m.L() + (p["reg"] * np.eye(s.n) if p["matrix"] else 0)
        want = schur(Lw, ind)
        t = 100 * s.m.tol()
        self.judged += 1
        self.ctx.probe("reductions")
        if p["matrix"]:
            close("matrix", L, Lw, 0, key="arguments-changed", **d)
            close("reduced matrix", g, want, t + 1e-9 * p["reg"],
                  key="kron-wrong", **d)
            return
        close("reduced Laplacian", g.L, want, t, key="kron-wrong", **d)
        W = dense(g.W)
        if (W != W.T).any() or np.diag(W).any() or (W < -t).any():
            raise Violation("kron-wrong", "weights of the reduction", **d)
        if s.coords is not None:
            close("coordinates", g.coords, s.coords[np.asarray(ind)], 0,
                  key="kron-wrong", **d)
        if p["quotient"] and len(ind) >= 4:
            # Eliminating in two steps is eliminating at once.
            sub = np.arange(0, len(ind), 2)
            g2 = reduction.kron_reduction(g, sub)
            close("reduction in two steps", g2.L, schur(
                Lw, np.asarray(ind)[sub]), 10 * t, key="kron-wrong", **d)
        if len(self.slots) < 8 and g.N >= 4:
            self.slots.append(adopt(g, s.spec))

    def interpolate_call(self, s, p):
        from pygsp import reduction
        ind = kept(p, s.n, s.m)
        f = world.signal(p["seed"], len(ind),
                         *([p["cols"]] if p["cols"] else []))
        kw = {}
        if p["order"] is not None:
            kw["order"] = p["order"]
        if p["reg"] is not None:
            kw["reg_eps"] = p["reg"]
        if p["exact"]:
            kw["method"] = "exact"
        return ind, f, reduction.interpolate(s.G, f, ind, **kw)

    def interpolate_judge(self, s, p, r, d):
        ind, f, y = r
        if not np.array_equal(ind, kept(p, s.n, s.m)):
            raise Violation("arguments-changed", "vertices", **d)
        close("samples", f, world.signal(p["seed"], len(ind), *(
            [p["cols"]] if p["cols"] else [])), 0, key="arguments-changed",
            **d)
        reg = .005 if p["reg"] is None else p["reg"]
        lm = None if p["exact"] else float(s.G.lmax)
        pred, t = self.predict(s.m, np.asarray(ind), f, reg,
                               p["order"] or 100, lm)
        if np.shape(y) != pred.shape:
            raise Violation("interpolation-wrong", f"shape {np.shape(y)} "
                            f"instead of {pred.shape}", **d)
        close("interpolation", y, pred, t + 1e-7, key="interpolation-wrong",
              **d)
        if p["exact"]:
            close("interpolation of the samples", np.asarray(y)[
                np.asarray(ind)], f.reshape(len(ind), -1), t + 1e-7,
                key="interpolation-wrong", **d)
        self.judged += 1
        self.ctx.probe("interpolations")

    def sparsify_call(self, s, p):
        from pygsp import reduction
        low = 1 / np.sqrt(s.n)
        eps = low + 1e-9 + p["eps"] * (.999 - low)
        stream = None
        M = s.G
        if p["matrix"]:
            M = getattr(sparse, p["matrix"] + "_matrix")(s.m.L())

        def go():
            nonlocal stream
            if p["how"] == "none":
                stream = Stream(p["stream"], p["seed"])
                with global_stream(stream):
                    return reduction.graph_sparsify(M, eps, p["maxiter"])
            seed = p["seed"]
            if p["how"] == "state":
                seed = stream = Stream(p["stream"], p["seed"])
            elif p["how"] == "generator":
                seed = seams._real_default_rng(p["seed"])
            return reduction.graph_sparsify(M, eps, p["maxiter"], seed)

        before = np.random.get_state()[1:]
        a = go()
        if p["how"] != "none":
            after = np.random.get_state()[1:]
            if not all(np.array_equal(x, y)
                       for x, y in zip(before, after)):
                raise Violation("global-stream-changed", "by a seeded "
                                "sparsification")
        asked = None if stream is None else list(stream.asked)
        return M, a, go(), asked

    def sparsify_judge(self, s, p, r, d):
        M, a, b, asked = r
        L = s.m.L()
        if p["matrix"]:
            close("matrix", M, L, 0, key="arguments-changed", **d)
            La, Lb = dense(a), dense(b)
            if np.abs(La.sum(0)).max() > 1e-9 * np.abs(L).max() * s.n:
                raise Violation("sparsified-wrong", "not a Laplacian", **d)
            W, V = np.diag(np.diag(La)) - La, np.diag(np.diag(Lb)) - Lb
            W[np.abs(W) < 1e-9 * W.max()] = 0
            V[np.abs(V) < 1e-9 * V.max()] = 0
        else:
            W, V = dense(a.W), dense(b.W)
            if s.coords is not None:
                close("coordinates", a.coords, s.coords, 0,
                      key="sparsified-wrong", **d)
        sparser("sparsified", L, W, d)
        close("same seed", V, W, 1e-9 * W.max(), key="not-reproducible", **d)
        if asked is not None and p["stream"] == "even" and len(asked) == 1:
            # Evenly spread draws: every edge at its share.
            off = np.abs(W - np.maximum(np.diag(np.diag(L)) - L, 0)) * \
                resistances(L) / (s.n - 1)
            if not off.max() <= 1.01 / asked[0] + 1e-9:
                raise Violation("sparsified-wrong", f"edge off by "
                                f"{off.max():.3g} with {asked[0]} even draws",
                                **d)
            self.ctx.probe("even draws")
        self.judged += 1
        self.ctx.probe("sparsifications")


# ------------------------------------------------------------------- histories

class History(World):
    def __init__(self, case, ctx, faults, record):
        self.record, self.sim = record, Sim(
            faults=faults, record=record, make_exc=make_exc)
        super().__init__(case, ctx)

    def main(self, th):
        self.th = th
        for k, q in enumerate(self.case["ops"]):
            d = dict(step=k, op=q["op"])
            getattr(self, q["op"])(k, q["p"], d)
            for c in self.chains:
                c.check(d)
            self.graphs(d)
        if self.record:
            return
        ops.check_state(self.root, dict(step="end"))

    def graphs(self, d):
        """The graphs are what they were."""
        for j, s in enumerate(self.slots):
            if (s.G.W != s.m.W).any():
                raise Violation("graph-changed", f"graph {j}", **d)
            if j:
                for name in set(s.G.signals) ^ set(s.signals):
                    raise Violation("graph-changed", f"signal {name}", **d)

    def attempt(self, k, fn, d, tolerate=False, judge=None):
        """The result of fn(), repeated after a fault; None if tolerated."""
        n_fired, err, got = len(self.sim.fired), None, None
        self.sim.begin_op(self.th, k)
        try:
            got = fn()
        except (SimAbort, HarnessError, Violation):
            raise
        except BaseException as e:
            err = e
        finally:
            self.sim.end_op(self.th)
        fired = self.sim.fired[n_fired:]
        if fired:
            f = fired[0]
            d["fault"] = f"{f['exc']} at {f['where']}"
            self.ctx.fault(f"{f['exc']} at {f['at']}")
        p = d.get("p", {})
        self.ctx.log(k, d["op"], type(err).__name__, d.get("fault"))
        self.ctx.state((d["op"], self.case["graph"]["kind"], p.get("slot"),
                        p.get("stream"), p.get("exact"), p.get("matrix"),
                        p.get("levels"), p.get("op"),
                        d.get("fault", "").split(":")[0]))
        if err is not None and fired:
            self.ctx.probe("failed")
            for c in self.chains:
                c.check(d)
            d["retried"] = True
            err = None
            try:
                got = fn()
            except Exception as e:
                err = e
        if err is None:
            return got
        if isinstance(err, ArpackError):
            self.ctx.probe("genuine non-convergence")
            return None
        if tolerate:
            self.ctx.probe("degenerate")
            return None
        raise Violation(f"unexpected-{type(err).__name__}", f"{err}",
                        traceback="".join(traceback.format_exception(
                            err))[-2000:], **d)

    # (one method per operation)

    def multi(self, k, p, d):
        s = self.slot(p)
        if not self.proper(s) or s.m.lap != "combinatorial":
            return
        sure = ops.polarity(s.m) is not None
        levels = p["levels"]
        Gs = self.attempt(k, lambda: self.multi_call(s, p, levels), d,
                          tolerate=levels > 1 or not sure)
        if Gs is None and levels > 1 and sure:
            levels = 1
            Gs = self.attempt(k, lambda: self.multi_call(s, p, 1), d)
        if Gs is None:
            return
        chain = self.multi_judge(s, p, levels, Gs, d)
        self.ctx.log([g.N for g in Gs])
        if len(self.chains) < 4:
            self.chains.append(chain)
            self.slots += [c for c in chain.slots if c is not s]

    def analysis(self, k, p, d):
        from pygsp import reduction
        if not self.chains:
            return
        chain = self.chains[p["chain"] % len(self.chains)]
        if not self.able(chain, p):
            return
        x = self.signal(chain, p)
        before = snap.snap(x)
        kw, _ = filters_of(p, self.scale, len(chain.Gs) - 1)
        hs = kw.get("h_filters")
        if isinstance(hs, list):
            hs = list(hs)
        r = self.attempt(k, lambda: reduction.pyramid_analysis(
            chain.Gs, x, **kw, **self.options(p)), d)
        w = snap.where(before, snap.snap(x))
        if w:
            raise Violation("arguments-changed", f"signal {w}", **d)
        if isinstance(hs, list) and hs != kw["h_filters"]:
            raise Violation("arguments-changed", "filters", **d)
        if r is None:
            return
        ca, pe = r
        lms = self.lmaxes(chain, p)
        self.analysis_judge(chain, p, x, ca, pe, lms, d)
        self.pending.append((chain, p, x, ca, pe, lms,
                             [s.m.lap for s in chain.slots]))

    def synthesis(self, k, p, d):
        from pygsp import reduction
        if not self.pending:
            return
        chain, pa, x, ca, pe, lms0, laps = self.pending[
            p["pending"] % len(self.pending)]
        if not self.able(chain, pa):
            return
        if p["other"] == "short":
            try:
                reduction.pyramid_synthesis(chain.Gs, ca[-1], pe[1:],
                                            **self.options(pa))
            except ValueError:
                return
            raise Violation("not-refused", "coefficients are missing", **d)
        q = dict(pa)
        if p["other"] == "order":
            q["order"] = 20
        elif p["other"] == "reg":
            q["reg"] = .2
        before = snap.snap([ca, pe])
        r = self.attempt(k, lambda: reduction.pyramid_synthesis(
            chain.Gs, ca[-1], pe, **self.options(q)), d)
        w = snap.where(before, snap.snap([ca, pe]))
        if w:
            raise Violation("arguments-changed", f"coefficients {w}", **d)
        if r is None:
            return
        y, cs = r
        lms = self.lmaxes(chain, pa)
        size = self.synthesis_judge(chain, q, pe, y, cs, lms, d)
        if lms == lms0 and laps == [s.m.lap for s in chain.slots] and \
                p["other"] in (None,):
            self.same(x, y, size, d)

    def touch(self, k, p, d):
        s = self.slot(p)
        o, q = ops.OPS[p["op"]], dict(p["p"])
        if not self.proper(s) or not o.able(s, q):
            return
        if p["op"] == "regression" and s.m.dw.max() > 100:
            return
        d = dict(d, touch=p["op"])
        r = self.attempt(k, lambda: o.run(s, q), d)
        if r is None:
            return
        o.settle(s, q, r)
        for c in self.slots:
            # (graphs that are copies of one another share nothing)
            if c is not s and c.G is s.G:
                o.settle(c, q, r)
        if s is not self.root and not isinstance(r, (tuple, list)):
            o.check(s, q, r, d)

    def kron(self, k, p, d):
        s = self.slot(p)
        if not self.proper(s) or \
                s.m.lap != "combinatorial" and not p["matrix"]:
            return
        r = self.attempt(k, lambda: self.kron_call(s, p), d)
        if r is not None:
            self.kron_judge(s, p, r, d)

    def interpolate(self, k, p, d):
        s = self.slot(p)
        if not self.proper(s) or p["exact"] and s.partial:
            return
        r = self.attempt(k, lambda: self.interpolate_call(s, p), d)
        if r is not None:
            self.interpolate_judge(s, p, r, d)

    def sparsify(self, k, p, d):
        s = self.slot(p)
        if not self.proper(s) or s.m.lap != "combinatorial":
            return
        r = self.attempt(k, lambda: self.sparsify_call(s, p), d)
        if r is not None:
            self.sparsify_judge(s, p, r, d)

    def refused(self, k, p, d):
        from pygsp import graphs, reduction
        s = self.slot(p)
        if not self.proper(s):
            return
        N, V = NotImplementedError, ValueError
        todo = [
            (V, lambda: reduction.graph_sparsify(s.m.L(), 1)),
            (V, lambda: reduction.graph_sparsify(s.m.L(),
                                                 .99 / np.sqrt(s.n))),
            (N, lambda: reduction.kron_reduction(
                graphs.Graph([[0, 1, 0], [0, 0, 1], [1, 0, 0]]), [0, 1]))]
        if s.m.lap != "combinatorial":
            todo += [
                (N, lambda: reduction.kron_reduction(s.G, [0, 1])),
                (N, lambda: reduction.graph_sparsify(s.G, .9)),
                (N, lambda: reduction.graph_multiresolution(s.G, 1))]
        if self.chains:
            c = self.chains[-1]
            todo.append((V, lambda: reduction.pyramid_analysis(
                c.Gs, np.ones(c.Gs[0].N + 1))))
            todo.append((V, lambda: reduction.pyramid_analysis(
                c.Gs, np.ones(c.Gs[0].N),
                h_filters=[lambda x: x] * (len(c.Gs) + 1))))
        for exc, f in todo:
            try:
                f()
            except exc:
                continue
            raise Violation("not-refused", "", **d)


def run_history(case, ctx):
    faults = []
    if case["faults"]:
        h = History(case, ctx, None, True)
        seams.seed_entropy(case.get("entropy", 0))
        h.sim.run_inline(h.main)
        for f in case["faults"]:
            rec = {"call": h.sim.recorded_calls,
                   "point": h.sim.recorded_ops}[f["at"]]
            total = len(rec.get((0, f["op"]), ()))
            if total:
                faults.append(dict(tid=0, op=f["op"], at=f["at"],
                                   n=1 + int(min(f["frac"], .9999) * total),
                                   exc=f["exc"]))
    seams.seed_entropy(case.get("entropy", 0))
    h = History(case, ctx, faults, False)
    try:
        h.sim.run_inline(h.main)
    finally:
        ctx.steps += h.sim.total
        ctx.log("digest", h.sim.digest)
    ctx.trivial = not h.judged


# --------------------------------------------------------------------- threads

class Together(World):
    def __init__(self, case, ctx, preempt, record):
        super().__init__(case, ctx)
        self.results = []
        self.sim = Sim(preempt=preempt, record=record)
        self.chain = None
        if self.proper(self.root) and ops.polarity(self.root.m) is not None:
            p = case["multi"]
            for levels in (p["levels"], 1):
                try:
                    Gs = self.multi_call(self.root, p, levels)
                except Exception:
                    continue
                self.chain = self.multi_judge(self.root, p, levels, Gs, {})
                self.slots = self.chain.slots[:-1] or self.slots
                break

    def one(self, q, p, s):
        from pygsp import reduction
        if q["op"] == "pyramid":
            p["exact"] = p["exact"] and self.case["multi"]["full"]
            x = self.signal(self.chain, p)
            kw, _ = filters_of(p, self.scale, len(self.chain.Gs) - 1)
            ca, pe = reduction.pyramid_analysis(self.chain.Gs, x, **kw,
                                                **self.options(p))
            y, cs = reduction.pyramid_synthesis(
                self.chain.Gs, ca[-1], pe, **self.options(p))
            return x, ca, pe, y, cs
        if q["op"] == "multi":
            p["full"] = False
            return self.multi_call(s, p, 1)
        if q["op"] == "touch":
            if ops.OPS[p["op"]].able(s, p["p"]):
                return ops.OPS[p["op"]].run(s, p["p"])
            return None
        if q["op"] == "interpolate":
            p["exact"] = p["exact"] and self.case["multi"]["full"]
            return self.interpolate_call(s, p)
        p["quotient"] = False
        return self.kron_call(s, p)

    def body(self, t):
        def f(th):
            for k, q in enumerate(self.case["threads"][t]):
                p = dict(q["p"])
                s = self.slot(p)
                got = err = None
                try:
                    got = self.one(q, p, s)
                except (SimAbort, HarnessError):
                    raise
                except Exception as e:
                    err = e
                self.results.append((t, k, q, p, s, got, err))
        return f

    def go(self):
        if not all(s.m.W.any() for s in self.chain.slots[:-1]):
            return
        self.lms = [float(s.G.lmax) for s in self.chain.slots[:-1]]
        self.sim.run_threads([self.body(t) for t in (0, 1)])
        if isinstance(self.sim.abort, SimDeadlock):
            raise Violation("deadlock", str(self.sim.abort))
        if isinstance(self.sim.abort, StepBudgetExceeded):
            raise Violation("no-termination", str(self.sim.abort))

    def judge(self, d0):
        self.chain.check(d0)
        # (estimated again by another multiresolution, after a basis)
        there_and_back = {"multi", "battery"} <= {
            q["p"].get("op", q["op"]) for t in self.case["threads"]
            for q in t}
        stable = not there_and_back and self.lms == [
            float(s.G.lmax) for s in self.chain.slots[:-1]]
        if not stable:
            self.ctx.probe("largest eigenvalue changed")
        for t, k, q, p, s, got, err in self.results:
            d = dict(thread=t, step=k, op=q["op"], **d0)
            if isinstance(err, ArpackError):
                continue
            if err is not None:
                raise Violation(f"unexpected-{type(err).__name__}",
                                f"{err}", traceback="".join(
                                    traceback.format_exception(err))[-2000:],
                                **d)
            self.ctx.log(t, k, q["op"])
            if q["op"] == "kron":
                self.kron_judge(s, p, got, d)
            elif q["op"] == "multi":
                self.multi_judge(s, p, 1, got, d, shared=True)
            elif q["op"] == "interpolate":
                if stable or p["exact"]:
                    self.interpolate_judge(s, p, got, d)
            elif q["op"] == "pyramid":
                if not stable and not p["exact"]:
                    continue
                x, ca, pe, y, cs = got
                lms = [None] * len(self.lms) if p["exact"] else self.lms
                self.analysis_judge(self.chain, p, x, ca, pe, lms, d)
                size = self.synthesis_judge(self.chain, p, pe, y, cs, lms, d)
                self.same(x, y, size, d)


def run_threads(case, ctx):
    seams.seed_entropy(case.get("entropy", 0))
    first = Together(case, ctx, {}, True)
    if first.chain is None:
        ctx.trivial = True
        return
    first.go()
    first.judge(dict(schedule="no preemption"))
    preempt = {}
    for f in case["preempt"]:
        rec = first.sim.recorded.get(f["tid"], ())
        if rec:
            preempt[(f["tid"], 1 + position(f, rec))] = 1 - f["tid"]
    seams.seed_entropy(case.get("entropy", 0))
    x = Together(case, ctx, preempt, False)
    try:
        x.go()
    finally:
        ctx.steps += x.sim.total
    sw = [f"T{a}->T{b} at {w}" for a, b, w in x.sim.switches]
    for line in sw:
        ctx.fault("preemption")
        ctx.log(line)
    for a, b, w in x.sim.switches:
        ctx.state(("switch", w))
    ctx.log("digest", x.sim.digest)
    x.judge(dict(schedule=sw))
    ctx.trivial = not x.results


def run(case, ctx):
    try:
        if "threads" in case:
            if len(case["threads"]) == 2:
                run_threads(case, ctx)
        else:
            run_history(case, ctx)
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
