"""C09: data owned by the caller and by other graphs is never modified."""

import copy
import os
import shutil
import tempfile

import numpy as np
from scipy import sparse

from .. import designs, generators, snap, world
from ..core import Violation
from ..kernel import Sim, SimAbort, HarnessError, StepBudgetExceeded
from . import c02

LEVEL = "exploration"
TECHNIQUE = ("seeded search over histories of calls of the public interface "
             "on shared data, with exceptions and interrupts injected")
NOTE = ("Every array, matrix, list, dictionary and graph handed to the "
        "package, in many types and memory layouts, and every other graph "
        "alive, is compared bit by bit with a snapshot after every call, "
        "also when the call fails half-way.")
RULE = ("A run is 3 to 12 calls on a pool of arguments, graphs and filters "
        "which keep being handed over; some calls fail at the n-th library "
        "call or when it returns. Non-trivial: at least one call was checked. "
        "Distinctness: hash of the event log.")
STATES = "(call, types and layouts of its arguments, outcome)"
REAL = "pygsp, NumPy, SciPy, NetworkX, graph-tool, matplotlib, scikit-learn"
STUBS = "library calls chosen to fail raise instead of running"
ASSUMPTIONS = [
    "values are compared, not the order in which a sparse matrix stores them",
    "signals and coordinates may be stored without a copy, as documented by "
    "their conversion functions; they are never written to",
]
QUICK = dict(cases=9000, seconds=85, batch=50)
THOROUGH = dict(cases=300000, seconds=780, batch=100)

LAYOUTS = ["C", "C", "F", "strided", "readonly", "transposed", "reversed"]


def layout(x, how):
    """The same values in another memory layout; returns (array, base)."""
    x = np.array(x)
    if how == "F":
        return np.asfortranarray(x), None
    if how == "strided":
        base = np.full((2 * x.shape[0],) + x.shape[1:], 7, x.dtype)
        base[::2] = x
        return base[::2], base
    if how == "transposed":
        base = np.ascontiguousarray(x.T)
        return base.T, base
    if how == "reversed":
        base = np.ascontiguousarray(x[::-1])
        return base[::-1], base
    if how == "readonly":
        x.setflags(write=False)
    return x, None


class User:
    """Everything the caller owns."""

    def __init__(self, ctx, sim, th, tmp):
        self.ctx, self.sim, self.th, self.tmp = ctx, sim, th, tmp
        self.things = []    # [name, object, snapshot]
        self.keep = []
        self.graphs = []    # indices in things
        self.filters = []
        self.step = 0
        self.may_change = set()
        self.fault_step = None
        self.calls = 0

    def own(self, name, x):
        for t in self.things:
            if t[1] is x:
                return x
        self.things.append([name, x, snap.snap(x)])
        return x

    def graph(self, G, name):
        self.own(name, G)
        self.graphs.append(G)
        if len(self.graphs) > 6:
            G = self.graphs.pop(1)
            self.things = [t for t in self.things if t[1] is not G]
            self.filters = [f for f in self.filters if f.G is not G]
        return self.graphs[-1]

    def array(self, name, x, how="C"):
        x, base = layout(x, how)
        if base is not None:
            self.own(name + " (base)", base)
        if len(self.things) > 60:
            # forget the oldest argument
            for t in self.things:
                if t[1] not in [id(0)] and isinstance(t[1], np.ndarray):
                    self.things.remove(t)
                    break
        return self.own(f"{name} ({how})", x)

    def resnap(self, x):
        for t in self.things:
            if t[1] is x:
                t[2] = snap.snap(x)

    def call(self, name, fn, *a, mutates=None, fault=True, **k):
        """A call of the package; then nothing else may have changed."""
        owned = []
        for i, x in enumerate(a):
            owned.append(x)
            self.own(f"argument {i} of {name}", x) if trackable(x) else None
        for key, x in k.items():
            self.own(f"argument {key} of {name}", x) if trackable(x) else None
        n = len(self.sim.fired)
        e = r = None
        self.calls += 1
        self.sim.begin_op(self.th, self.calls)
        try:
            r = fn(*a, **k)
        except (SimAbort, HarnessError):
            raise
        except BaseException as exc:
            e = exc
        finally:
            self.sim.end_op(self.th)
        fired = self.sim.fired[n:]
        self.ctx.probe("calls checked")
        d = dict(call=name, step=self.step, n=self.calls)
        if fired:
            self.ctx.fault(f"{fired[0]['exc']} at {fired[0]['at']}")
            d["fault"] = fired[0]["where"]
        self.ctx.log(self.step, name, type(e).__name__,
                     [f["where"] for f in fired])
        self.ctx.state((name, type(e).__name__, tuple(
            kind(x) for x in list(a) + list(k.values()))))
        self.check(d, mutates)
        if e is not None and not fired:
            # A loud failure modifies nothing; other properties decide
            # whether a call may fail. But a call which stumbles over a
            # read-only argument was writing to it.
            self.ctx.probe("calls refused")
            if isinstance(e, ValueError) and "read-only" in str(e):
                import traceback
                raise Violation("argument-written", f"{name}: {e}",
                                traceback="".join(
                                    traceback.format_exception(e))[-1500:],
                                **d)
        return r

    def check(self, d, mutates=None):
        for t in self.things:
            if t[1] is mutates:
                continue
            now = snap.snap(t[1])
            if now != t[2]:
                what = "other-graph" if now[0] == "graph" else "argument"
                raise Violation(
                    f"{what}-modified", f"{t[0]}: {snap.where(t[2], now)}",
                    owned=t[0], **d)
        if mutates is not None:
            self.resnap(mutates)


def trackable(x):
    return isinstance(x, (np.ndarray, list, dict)) or sparse.issparse(x) or \
        type(x).__module__.split(".")[0] in ("networkx", "graph_tool") or \
        hasattr(x, "lap_type")


def kind(x):
    if isinstance(x, np.ndarray):
        f = x.flags
        return (str(x.dtype), x.ndim, f.c_contiguous, f.f_contiguous,
                f.writeable)
    if sparse.issparse(x):
        return (x.format, str(x.dtype))
    return type(x).__name__


# ------------------------------------------------------------------ the calls

def matrix(r, spec, how, sparse_how):
    W = world.typed(spec, world.adjacency(spec))
    fmt = spec["fmt"]
    if fmt == "dense":
        return W, how
    M = world.as_format(W, fmt)
    if fmt in ("csr", "csr_array", "csc"):
        if sparse_how == "zeros":
            # explicit zeros
            i, j = np.nonzero(W == 0)
            c = sparse.coo_matrix(W)
            k = int(r.integers(0, len(i)))
            M = type(M)((np.append(c.data, c.data[:1] * 0),
                         (np.append(c.row, i[k]), np.append(c.col, j[k]))),
                        shape=W.shape)
        elif sparse_how == "unsorted":
            for a in range(len(W)):
                s = slice(M.indptr[a], M.indptr[a + 1])
                M.indices[s] = M.indices[s][::-1].copy()
                M.data[s] = M.data[s][::-1].copy()
            M.has_sorted_indices = False
        elif sparse_how == "duplicates" and W.dtype == float:
            c = sparse.csr_matrix(W)
            p = c.indptr
            M = type(M)((np.repeat(c.data / 2, 2), np.repeat(c.indices, 2),
                         p * 2), shape=W.shape) if fmt != "csc" else M
        elif sparse_how == "readonly":
            M.data.setflags(write=False)
            M.indices.setflags(write=False)
            M.indptr.setflags(write=False)
    return M, None


def op_graph(u, p, r):
    from pygsp import graphs
    spec = p["spec"]
    M, how = matrix(r, spec, p["layout"], p["sparse"])
    if how:
        M = u.array("adjacency", M, how)
    else:
        u.own(f"adjacency ({spec['fmt']}, {p['sparse']})", M)
        if u.things[-1][1] is M and hasattr(M, "data") and \
                spec["fmt"] in ("csr", "csc", "csr_array"):
            u.own("stored values", M.data)
            if p["sparse"] != "unsorted":
                u.own("stored indices", M.indices)
                u.own("stored pointers", M.indptr)
    n = spec["n"]
    kw = {}
    if p["coords"]:
        kw["coords"] = u.array("coords", r.uniform(size=(n, p["coords"])),
                               p["layout"])
    if p["style"]:
        kw["plotting"] = u.own("plotting", {
            "vertex_size": 30, "limits": np.array([0., 1, 0, 1])})
    G = u.call("Graph", graphs.Graph, M,
               lap_type=spec.get("lap", "combinatorial"), **kw)
    if G is not None:
        u.graph(G, f"graph {len(u.graphs)}")
        if r.random() < .3:
            # and once more from the same matrix
            G = u.call("Graph again", graphs.Graph, M)
            if G is not None:
                u.graph(G, "second graph of the same matrix")


def signal(u, G, r, p, *shape):
    x = r.normal(size=(G.N,) + shape)
    dt = p["dtype"]
    if dt == "int":
        x = np.round(x * 5).astype(int)
    elif dt == "f4":
        x = x.astype("f4")
    return u.array("signal", x, p["layout"])


def op_set_signal(u, p, r):
    G = pick(u, p)
    x = signal(u, G, r, p, *([2] if r.random() < .3 else []))
    u.call("set_signal", G.set_signal, x, "s", mutates=G)


def op_restyle(u, p, r):
    """Changing one graph's own data changes no other graph."""
    G = pick(u, p)
    G.plotting["vertex_size"] = int(r.integers(1, 99))
    G.plotting["new"] = 1
    u.resnap(G)
    u.check(dict(call="plotting", step=u.step))


def op_laplacian(u, p, r):
    G = pick(u, p)
    if G.has_loops():
        return
    u.call("compute_laplacian", G.compute_laplacian,
           ["combinatorial", "normalized"][int(r.integers(2))], mutates=G)


def op_basis(u, p, r):
    G = pick(u, p)
    k = None if r.random() < .6 else int(r.integers(2, max(3, G.N - 2)))
    u.call("compute_fourier_basis", G.compute_fourier_basis, k)


def op_lmax(u, p, r):
    G = pick(u, p)
    if G.W.nnz == 0 or not G.is_connected():
        return
    u.call("estimate_lmax", G.estimate_lmax,
           ["lanczos", "bounds"][int(r.integers(2))])


def op_gft(u, p, r):
    G = pick(u, p)
    u.call("compute_fourier_basis", G.compute_fourier_basis)
    x = signal(u, G, r, p, *([[], [3], [2, 2]][int(r.integers(3))]))
    u.call("gft", G.gft, x)
    u.call("igft", G.igft, x)


def op_diff(u, p, r):
    G = pick(u, p)
    u.call("compute_differential_operator", G.compute_differential_operator)
    x = signal(u, G, r, p)
    u.call("grad", G.grad, x)
    y = u.array("edge signal", r.normal(size=G.n_edges), p["layout"])
    u.call("div", G.div, y)
    u.call("dirichlet_energy", G.dirichlet_energy, x)


def op_structure(u, p, r):
    G = pick(u, p)
    for name in ("is_connected", "is_directed", "is_weighted", "has_loops",
                 "get_edge_list"):
        u.call(name, getattr(G, name))
    u.call("degrees", lambda: (G.d, G.dw, G.A))


def op_subgraph(u, p, r):
    G = pick(u, p)
    if G.N < 5:
        return
    v = r.permutation(G.N)[:max(3, G.N - 2)]
    if r.random() < .3:
        v = v.tolist()
        u.own("vertices", v)
    else:
        v = u.array("vertices", v, p["layout"])
    H = u.call("subgraph", G.subgraph, v)
    if H is not None:
        u.graph(H, "subgraph")
        poke(u, H)


def poke(u, H):
    """The signals of a derived graph are its own."""
    for name, x in H.signals.items():
        if x.flags.writeable and x.size:
            x.flat[0] = 1 - x.flat[0]
            u.resnap(H)
            u.check(dict(call="writing to a signal of a derived graph",
                         step=u.step))
    c = getattr(H, "coords", None)
    if c is not None and c.flags.writeable and c.size:
        c.flat[0] = 1 - c.flat[0]
        u.resnap(H)
        u.check(dict(call="writing to the coordinates of a derived graph",
                     step=u.step))
    H.plotting["edge_width"] = 9
    u.resnap(H)
    u.check(dict(call="restyling a derived graph", step=u.step))


def op_components(u, p, r):
    G = pick(u, p)
    if G.is_directed():
        return
    Hs = u.call("extract_components", G.extract_components)
    for H in (Hs or [])[:2]:
        u.graph(H, "component")
        if r.random() < .5:
            poke(u, H)


def op_layout(u, p, r):
    G = pick(u, p)
    w = r.integers(5)
    if w == 0:
        x = u.array("layout", r.uniform(size=(G.N, int(r.integers(2, 4)))),
                    p["layout"])
        u.call("set_coordinates", G.set_coordinates, x, mutates=G)
    elif w == 1:
        kw = {}
        if r.random() < .7:
            kw["pos"] = u.array("positions", r.uniform(size=(G.N, 2)),
                                p["layout"])
            if r.random() < .5:
                kw["fixed"] = u.own("fixed", [0, 2])
        if r.random() < .3:
            kw["center"] = u.array("center", r.uniform(size=(1, 2)), "C")
        u.call("spring layout", G.set_coordinates, "spring", seed=1,
               iterations=3, mutates=G, **kw)
    else:
        u.call("set_coordinates", G.set_coordinates,
               ["line2D", "ring2D", "random2D", "random3D"][
                   int(r.integers(4))], mutates=G)


ATTRIBUTES = ["pos", "x", "y", "label", "name", "weight", "value", "a_0",
              "a_1", "v_0", "id", "coords"]


def user_networkx(r):
    import networkx as nx
    n = int(r.integers(1, 7))
    g = [nx.Graph, nx.DiGraph, nx.MultiGraph, nx.MultiDiGraph][
        int(r.integers(4))]()
    g.graph["name"] = "mine"
    keys = [ATTRIBUTES[k] for k in r.permutation(len(ATTRIBUTES))[:3]]
    for i in r.permutation(n):
        g.add_node(int(i), **{k: float(r.normal()) for k in keys
                              if r.random() < .8})
    for _ in range(int(r.integers(0, 2 * n + 1))):
        a, b = (int(k) for k in r.integers(0, n, 2))
        g.add_edge(a, b, **{k: float(r.uniform(.1, 3))
                            for k in ("weight", "w") if r.random() < .8})
    return g


def user_graphtool(r):
    import graph_tool as gt
    n = int(r.integers(1, 7))
    g = gt.Graph(directed=bool(r.random() < .5))
    g.add_vertex(n)
    for _ in range(int(r.integers(0, 2 * n + 1))):
        g.add_edge(*(int(k) for k in r.integers(0, n, 2)))
    for k in ("weight", "w"):
        if r.random() < .8:
            p = g.new_edge_property("double")
            p.a = r.uniform(.1, 3, size=g.num_edges())
            g.ep[k] = p
    for k in r.permutation(len(ATTRIBUTES))[:3]:
        p = g.new_vertex_property(["double", "int"][int(r.integers(2))])
        p.a = r.integers(0, 9, size=n)
        g.vp[ATTRIBUTES[k]] = p
    return g


def op_io(u, p, r):
    from pygsp import graphs
    G = pick(u, p)
    w = r.integers(5)
    if w == 3:
        g = user_networkx(r)
        u.own("networkx graph of the user", g)
        H = u.call("from_networkx", graphs.Graph.from_networkx, g,
                   ["weight", "w", None][int(r.integers(3))])
    elif w == 4:
        g = user_graphtool(r)
        u.own("graph-tool graph of the user", g)
        H = u.call("from_graphtool", graphs.Graph.from_graphtool, g,
                   ["weight", "w"][int(r.integers(2))])
    elif w == 0:
        g = u.call("to_networkx", G.to_networkx)
        if g is None:
            return
        u.own("networkx graph", g)
        H = u.call("from_networkx", graphs.Graph.from_networkx, g)
    elif w == 1:
        g = u.call("to_graphtool", G.to_graphtool)
        if g is None:
            return
        u.own("graph-tool graph", g)
        H = u.call("from_graphtool", graphs.Graph.from_graphtool, g)
    else:
        path = os.path.join(u.tmp, "g." + ["gml", "graphml", "gexf"][
            int(r.integers(3))])
        if np.abs(G.W).max() > 2 ** 30:
            return
        u.call("save", G.save, path, backend="networkx")
        if not os.path.exists(path):
            return
        H = u.call("load", graphs.Graph.load, path, backend="networkx")
    if H is not None:
        u.graph(H, "imported graph")
        poke(u, H)


def bank(u, p, r):
    from pygsp import filters
    fs = [f for f in u.filters if f.G in u.graphs]
    if fs and r.random() < .5:
        return fs[int(r.integers(len(fs)))]
    G = pick(u, p)
    if G.is_directed() and False:
        return None
    if r.random() < .4:
        ks = [lambda x: 1 / (1 + x), lambda x: x * 0 + 1., lambda x: np.exp(
            -x)][:int(r.integers(1, 4))]
        ks = u.own("kernels", list(ks))
        f = u.call("Filter", filters.Filter, G, ks)
    else:
        q = p["design"]
        if isinstance(q.get("scale"), list):
            u.own("scale", q["scale"])
        f = u.call(f"filter {q['kind']}", designs.build, G, q)
    if f is not None:
        u.filters.append(f)
    return f


def op_filter(u, p, r):
    f = bank(u, p, r)
    if f is None:
        return
    G = f.G
    w = int(r.integers(10))
    method = ["exact", "chebyshev"][int(r.integers(2))]
    if G.W.nnz == 0:
        # lmax is zero: approximations on an empty interval fail loudly
        method = "exact"
    if method == "exact" or not G.is_connected():
        u.call("compute_fourier_basis", G.compute_fourier_basis)
    if w < 4:
        shape = [[], [1], [3], [2, 1]][int(r.integers(4))]
        if f.Nf in shape:
            shape = []
        x = signal(u, G, r, p, *shape)
        u.call("filter", f.filter, x, method=method)
        if r.random() < .3:
            u.call("analyze", f.analyze, x, method=method)
    elif w < 6:
        x = signal(u, G, r, p, 2, f.Nf)
        u.call("synthesize", f.synthesize, x, method=method)
    elif w < 7:
        x = u.array("spectrum", r.uniform(size=7), p["layout"])
        u.call("evaluate", f.evaluate, x)
        u.call("estimate_frame_bounds", f.estimate_frame_bounds, x)
    elif w < 8:
        u.call("localize", f.localize, int(r.integers(G.N)), method=method)
        u.call("compute_frame", f.compute_frame, method=method)
    elif w < 9:
        g = u.call("complement", f.complement)
        if g is not None:
            x = signal(u, G, r, p)
            u.call("filter", g.filter, x, method=method)
        h = u.call("inverse", f.inverse)
        if h is not None and h.Nf <= 4:
            x = signal(u, G, r, p, 2, h.Nf)
            u.call("filter", h.filter, x, method=method)
    else:
        from pygsp.filters import approximations as a
        c = u.call("compute_cheby_coeff", a.compute_cheby_coeff, f, m=8)
        if c is None:
            return
        c = u.array("coefficients", np.array(c), p["layout"])
        x = signal(u, G, r, p)
        u.call("cheby_op", a.cheby_op, G, c, x)
        b = u.own("bounds", [.1 * float(G.lmax), .5 * float(G.lmax)])
        u.call("cheby_rect", a.cheby_rect, G, b, x, order=5)
        dl = u.own("delta", [0., float(G.lmax)])
        u.call("compute_jackson_cheby_coeff", a.compute_jackson_cheby_coeff,
               b, dl, 5)


def op_combine(u, p, r):
    fs = [f for f in u.filters if f.G in u.graphs]
    if len(fs) < 2:
        return
    a, b = fs[0], fs[-1]
    if a.G is not b.G or not isinstance(getattr(a, "_kernels", None), list):
        return
    n = a.Nf, b.Nf
    u.call("add filters", lambda: a + b)
    if (a.Nf, b.Nf) != n or len(a) != n[0]:
        raise Violation("filter-modified", "adding filter banks changed them",
                        step=u.step)


def op_modulation(u, p, r):
    from pygsp import filters
    G = pick(u, p)
    if G.N > 12:
        return
    u.call("compute_fourier_basis", G.compute_fourier_basis)
    k = u.call("Heat", filters.Heat, G, 2)
    if k is None:
        return
    x = signal(u, G, r, p)
    if r.random() < .5:
        m = u.call("Modulation", filters.Modulation, G, k,
                   modulation_first=bool(r.integers(2)))
    else:
        m = u.call("Gabor", filters.Gabor, G, k)
    if m is not None:
        u.call("modulated filter", m.filter, x)


def op_learning(u, p, r):
    from pygsp import learning
    G = pick(u, p)
    if G.is_directed() or not G.is_connected():
        return
    M = r.random(G.N) < .6
    M[int(r.integers(G.N))] = True
    M[int(r.integers(G.N))] = False
    if not M.any():
        return
    M = u.array("mask", M, p["layout"])
    w = int(r.integers(4))
    tau = [0, .5, 3][int(r.integers(3))]
    if w == 0:
        y = signal(u, G, r, dict(p, dtype="f8"))
        u.call("regression_tikhonov", learning.regression_tikhonov, G, y, M,
               tau=tau)
    elif w == 1:
        y = signal(u, G, r, dict(p, dtype="f8"), 3)
        u.call("regression_tikhonov", learning.regression_tikhonov, G, y, M,
               tau=tau)
    else:
        y = u.array("labels", r.integers(0, 3, size=G.N), p["layout"])
        if w == 2:
            u.call("classification_tikhonov",
                   learning.classification_tikhonov, G, y, M, tau=tau)
        else:
            u.call("classification_tikhonov_simplex",
                   learning.classification_tikhonov_simplex, G, y, M,
                   tau=.5, maxit=5, verbosity="NONE")


def keepers(G):
    """Vertices to keep in a reduction: the others are connected to them."""
    W = G.W.toarray()
    return [i for i in range(G.N) if i % 2 == 0 or not W[i].any()] or [0]


def op_reduction(u, p, r):
    from pygsp import reduction, utils
    G = pick(u, p)
    if G.is_directed() or not G.is_connected() or G.has_loops() or \
            G.lap_type != "combinatorial" or (G.W.toarray() < 0).any() or \
            not 1e-3 < np.abs(G.W).max() < 1e4:
        return
    w = int(r.integers(6))
    ind = np.array(keepers(G))
    ind = u.array("kept", ind, p["layout"])
    if w == 0:
        H = u.call("kron_reduction", reduction.kron_reduction, G, ind)
        if H is not None:
            u.graph(H, "reduced graph")
            poke(u, H)
        L = sparse.csr_matrix(G.L + .1 * sparse.eye(G.N))
        u.own("L", L)
        u.call("kron_reduction of a matrix", reduction.kron_reduction, L, ind)
    elif w == 1:
        H = u.call("graph_sparsify", reduction.graph_sparsify, G,
                   .5, seed=3)
        if H is not None:
            u.graph(H, "sparsified graph")
        L = u.own("L", sparse.csr_matrix(G.L))
        u.call("graph_sparsify of a matrix", reduction.graph_sparsify, L,
               .5, seed=3)
    elif w == 2 and G.N >= 4:
        u.call("resistance_distance", utils.resistance_distance, G)
        L = u.own("L", sparse.csr_matrix(G.L))
        u.call("resistance_distance", utils.resistance_distance, L)
    elif w == 3:
        from pygsp import graphs
        u.call("LineGraph", graphs.LineGraph, G)
    elif w == 4 or G.N >= 8:
        levels = 1
        if w == 4:
            from pygsp import graphs
            # large enough for several levels
            levels = int(r.integers(1, 4))
            n = int(r.integers(20, 40))
            G = [lambda: graphs.Ring(n, k=2), lambda: graphs.Sensor(n, seed=n),
                 lambda: graphs.Grid2d(5, n // 5)][int(r.integers(3))]()
            u.graph(G, "fine graph")
        Gs = u.call("graph_multiresolution", reduction.graph_multiresolution,
                    G, levels, sparsify=bool(r.integers(2)), sparsify_eps=.5,
                    compute_full_eigen=True)
        if Gs is None or len(Gs) < 2 or Gs[-1].N < 2 or \
                Gs[1].N >= G.N - 1:
            return
        u.own("multiresolution", Gs)
        f = signal(u, G, r, dict(p, dtype="f8"))
        hs = u.own("h_filters", [lambda x: 1 / (1 + x)] * (
            1 if r.random() < .5 else levels))
        res = u.call("pyramid_analysis", reduction.pyramid_analysis, Gs, f,
                     h_filters=hs, method="exact")
        if res is None:
            return
        ca, pe = res
        u.own("approximations", ca)
        u.own("errors", pe)
        u.call("pyramid_synthesis", reduction.pyramid_synthesis, Gs, ca[-1],
               pe, method="exact")


def op_utils(u, p, r):
    from pygsp import utils
    w = int(r.integers(5))
    if w == 0:
        x = u.array("x", r.normal(size=(3, 5)), p["layout"])
        y = u.array("y", r.normal(size=(3, 4)), p["layout"])
        u.call("distanz", utils.distanz, x, y)
        u.call("distanz", utils.distanz, x)
    elif w == 1:
        x = u.array("x", r.normal(size=(2, 6)), p["layout"])
        u.call("rescale_center", utils.rescale_center, x)
    elif w in (2, 3):
        W = r.uniform(size=(5, 5)) * (r.uniform(size=(5, 5)) < .5)
        method = ["average", "maximum", "fill", "tril", "triu"][
            int(r.integers(5))]
        if r.random() < .5:
            W = u.array("W", W, p["layout"])
        else:
            W = u.own("W", world.as_format(
                W, ["csr", "csc", "coo", "lil", "csr_array"][
                    int(r.integers(5))]))
        u.call(f"symmetrize {method}", utils.symmetrize, W, method)
    else:
        from pygsp import features
        G = pick(u, p)
        if G.W.nnz and G.is_connected() and G.N > 3:
            u.call("compute_spectrogram", features.compute_spectrogram, G,
                   M=5)


def op_points(u, p, r):
    from pygsp import graphs
    n = 12
    X = u.array("points", r.uniform(size=(n, int(r.integers(2, 4)))),
                p["layout"])
    kw = dict(k=3, center=bool(r.integers(2)), rescale=bool(r.integers(2)))
    if r.random() < .3:
        kw.update(NNtype="radius", epsilon=.9 if not kw["rescale"] else 2.)
    kw["symmetrize_type"] = ["average", "maximum", "fill"][int(r.integers(3))]
    if r.random() < .5:
        kw["plotting"] = u.own("plotting", {"vertex_size": 12})
    G = u.call("NNGraph", graphs.NNGraph, X, **kw)
    if G is not None:
        u.graph(G, "nearest neighbours")


def op_random(u, p, r):
    from pygsp import graphs
    w = int(r.integers(4))
    G = None
    if w == 0:
        z = r.integers(0, 3, size=12)
        z[:3] = [2, 0, 1]
        z = u.array("communities", z, p["layout"])
        M = u.array("probabilities", np.array(
            [[.9, .2, .2], [.2, .8, .2], [.2, .2, .7]]), p["layout"])
        if r.random() < .5:
            G = u.call("StochasticBlockModel", graphs.StochasticBlockModel,
                       N=12, k=3, z=z, M=M, seed=1)
        else:
            q = u.array("p", np.array([.9, .8, .7]), p["layout"])
            G = u.call("StochasticBlockModel", graphs.StochasticBlockModel,
                       N=12, k=3, z=z, p=q, q=.2, seed=1)
    elif w == 1:
        a = u.array("angles", r.uniform(0, 6, size=9), p["layout"])
        G = u.call("RandomRing", graphs.RandomRing, N=9, angles=a)
    elif w == 2:
        s = u.own("sizes", [4, 5, 3]) if r.random() < .5 else \
            u.array("sizes", np.array([4, 5, 3]), p["layout"])
        kw = {}
        if r.random() < .5:
            kw["comm_density"] = .8
        G = u.call("Community", graphs.Community, N=12, Nc=3, comm_sizes=s,
                   seed=2, **kw)
    else:
        try:
            import skimage  # noqa: F401
        except ImportError:
            return
        img = u.array("image", r.uniform(size=(4, 5)), p["layout"])
        G = u.call("ImgPatches", graphs.ImgPatches, img, k=3)
    if G is not None:
        u.graph(G, type(G).__name__)


def op_plot(u, p, r):
    from matplotlib import pyplot as plt
    G = pick(u, p)
    if getattr(G, "coords", None) is None or G.coords.ndim != 2 or \
            G.N < 2 or G.n_edges < 2 or \
            G.coords.shape[1] not in (2, 3) or not np.isfinite(G.coords).all():
        return
    kw = {}
    if r.random() < .7:
        kw["vertex_color"] = signal(u, G, r, p)
    if r.random() < .6:
        kw["vertex_size"] = u.array("sizes", r.uniform(size=G.N),
                                    p["layout"])
    if r.random() < .5 and not G.is_directed() or G.coords.shape[1] == 2:
        kw["edge_color"] = u.array("edge colors", r.uniform(
            size=G.n_edges), p["layout"])
        kw["edge_width"] = u.array("edge widths", r.uniform(
            size=G.n_edges), p["layout"])
    if r.random() < .5:
        kw["highlight"] = u.own("highlight", [0, 1])
    if r.random() < .3:
        kw["limits"] = u.own("limits", [-1., 1.])
    try:
        u.call("plot", G.plot, **kw)
    finally:
        plt.close("all")


OPS = dict(graph=op_graph, set_signal=op_set_signal, restyle=op_restyle,
           laplacian=op_laplacian, basis=op_basis, lmax=op_lmax, gft=op_gft,
           diff=op_diff, structure=op_structure, subgraph=op_subgraph,
           components=op_components, layout=op_layout, io=op_io,
           filter=op_filter, combine=op_combine, modulation=op_modulation,
           learning=op_learning, reduction=op_reduction, utils=op_utils,
           points=op_points, random=op_random, plot=op_plot)
WEIGHTS = dict(filter=4, learning=3, reduction=3, graph=2, set_signal=2,
               plot=1, io=2, layout=2, utils=2, points=2, random=2)


def pick(u, p):
    return u.graphs[p["on"] % len(u.graphs)]


def gen(rng, i, tier):
    def params():
        spec = world.spec_graph(rng, nmin=5, nmax=12)
        if spec["kind"] == "loops":
            spec["lap"] = "combinatorial"
        return dict(spec=spec, layout=rng.choice(LAYOUTS),
                    sparse=rng.choice(["plain", "zeros", "unsorted",
                                       "duplicates", "readonly"]),
                    coords=rng.choice([0, 2, 3]), style=rng.random() < .3,
                    on=rng.randrange(6), dtype=rng.choice(
                        ["f8", "f8", "f4", "int"]),
                    design=designs.gen(rng), seed=rng.getrandbits(24))

    names = [n for n in OPS for _ in range(WEIGHTS.get(n, 1))]
    seq = [dict(op="graph", p=params())]
    seq += [dict(op=rng.choice(names), p=params())
            for _ in range(rng.randint(2, 11))]
    faults = []
    if rng.random() < .4:
        for _ in range(rng.randint(1, 3)):
            at = rng.choice(["call", "call", "point"])
            faults.append(dict(
                tid=0, op=rng.randint(1, 20), at=at,
                n=1 + int(rng.expovariate(1 / (12 if at == "call" else 40))),
                exc="KeyboardInterrupt" if at == "point" else
                rng.choice(c02.EXCS)))
    return dict(ops=seq, faults=faults)


def scenario(case, ctx, tmp, sim, th):
    from pygsp import graphs
    u = User(ctx, sim, th, tmp)
    pristine = snap.snap(graphs.Graph([[0, 1], [1, 0]]).plotting)
    u.graph(graphs.Graph(np.ones((5, 5)) - np.eye(5),
                         coords=np.arange(10.).reshape(5, 2)), "first graph")
    for k, q in enumerate(case["ops"]):
        u.step = k
        OPS[q["op"]](u, copy.deepcopy(q["p"]),
                     world.nprng("c09", q["p"]["seed"]))
    now = snap.snap(graphs.Graph([[0, 1], [1, 0]]).plotting)
    if now != pristine:
        raise Violation("defaults-modified", "plotting options of new graphs: "
                        + snap.where(pristine, now))
    ctx.trivial = not ctx.counts["calls checked"]


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-c09-")
    sim = Sim(faults=case["faults"], make_exc=c02.make_exc)
    try:
        sim.run_inline(lambda th: scenario(case, ctx, tmp, sim, th))
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        ctx.steps += sim.total
        ctx.log("digest", sim.digest)


assert generators
