"""C10: missing or failing optional libraries are reported and tolerated."""

import builtins
import copy
import logging
import os
import shutil
import sys
import tempfile
from contextlib import contextmanager

import numpy as np
from scipy import sparse

from .. import seams, snap, world
from ..core import Violation
from ..kernel import Sim, SimAbort, HarnessError, StepBudgetExceeded

LEVEL = "fault_enumeration"
TECHNIQUE = ("seeded search over which optional imports fail, how and when "
             "(until repaired, or at the n-th attempt), across restarts of "
             "the program and operations that use them")
NOTE = ("The import system is simulated: any subset of the eight optional "
        "libraries is missing or broken, changing between operations, or "
        "fails at one attempt only. Each operation must give the result it "
        "gives with all libraries, or fail with an ImportError that names "
        "what is missing, and only then.")
RULE = ("A run is 2 to 8 operations, each with its own set of failing "
        "libraries and way of failing, some after a restart, and the same "
        "operations again once everything is repaired. Non-trivial: at least "
        "one import failed. Distinctness: hash of the event log.")
STATES = "(operation, failing libraries, way of failing, restarted, outcome)"
REAL = ("pygsp, NumPy, SciPy, and the optional libraries when they can be "
        "imported")
STUBS = "the import system, for the failing libraries"
ASSUMPTIONS = [
    "a library fails to import with any Exception (not with an exit or an "
    "interrupt)",
    "FLANN is approximate, and its random choices are its own: its results "
    "are checked for the right distances, not for the right neighbours",
]
QUICK = dict(cases=3500, seconds=85, batch=50)
THOROUGH = dict(cases=150000, seconds=780, batch=100)

LIBS = {
    "networkx": ["networkx"],
    "graph_tool": ["graph_tool"],
    "pyflann": ["pyflann"],
    "sklearn": ["sklearn"],
    "pyunlocbox": ["pyunlocbox"],
    "matplotlib": ["matplotlib", "mpl_toolkits"],
    "pyqtgraph": ["pyqtgraph"],
    "skimage": ["skimage"],
}
# Parts of a library that can be the one which is broken.
PARTS = {
    "matplotlib": [["matplotlib.pyplot"], ["mpl_toolkits"]],
    "pyqtgraph": [["pyqtgraph.opengl"], ["pyqtgraph.Qt"]],
    "sklearn": [["sklearn.neighbors"]],
    "graph_tool": [["graph_tool.spectral"]],
    "pyunlocbox": [["pyunlocbox.solvers"], ["pyunlocbox.functions"]],
}
NAMES = {
    "networkx": ["networkx"], "graph_tool": ["graph-tool", "graph_tool"],
    "pyflann": ["flann"], "sklearn": ["sklearn", "scikit-learn"],
    "pyunlocbox": ["pyunlocbox"], "matplotlib": ["matplotlib"],
    "pyqtgraph": ["pyqtgraph"], "skimage": ["skimage", "scikit-image"],
}
EXCS = dict(ImportError=ImportError, ModuleNotFoundError=ModuleNotFoundError,
            OSError=OSError, RuntimeError=RuntimeError,
            AttributeError=AttributeError, ValueError=ValueError,
            SyntaxError=SyntaxError, KeyError=KeyError)


def prepare():
    # Everything that can be imported is, once: forked runs start equal.
    import pyflann  # noqa: F401
    import sklearn.neighbors  # noqa: F401
    import pyunlocbox.functions  # noqa: F401
    import pyunlocbox.solvers  # noqa: F401
    import skimage.util  # noqa: F401
    import graph_tool.spectral  # noqa: F401
    global PYPLOT, QTWIDGETS
    from matplotlib import pyplot as PYPLOT
    from mpl_toolkits import mplot3d  # noqa: F401
    import pyqtgraph.opengl  # noqa: F401
    from pyqtgraph.Qt import QtGui  # noqa: F401
    from PyQt6 import QtWidgets as QTWIDGETS


# ------------------------------------------------------------------ the faults

@contextmanager
def flaky(lib, n, exc, fired):
    """The n-th import of the library by the package fails, once."""
    real = builtins.__import__
    count = [0]

    def attempt(name):
        if name.split(".")[0] in LIBS[lib]:
            count[0] += 1
            if count[0] == n:
                fired.append(lib)
                raise exc("simulated failure")

    def simulated(name, globals=None, locals=None, fromlist=(), level=0):
        if not level and globals is not None and \
                str(globals.get("__name__")).split(".")[0] == "pygsp":
            attempt(name)
        return real(name, globals, locals, fromlist, level)

    builtins.__import__ = simulated
    try:
        yield
    finally:
        builtins.__import__ = real


@contextmanager
def restarted():
    """The package as a program started now would import it."""
    saved = {n: m for n, m in sys.modules.items()
             if n.split(".")[0] == "pygsp"}
    loggers = {}
    for n, lg in list(logging.root.manager.loggerDict.items()):
        if n.split(".")[0] == "pygsp" and isinstance(lg, logging.Logger):
            loggers[lg] = list(lg.handlers)
    for n in saved:
        del sys.modules[n]

    def restore():
        for n in [n for n in sys.modules if n.split(".")[0] == "pygsp"]:
            del sys.modules[n]
        sys.modules.update(saved)
        for lg, h in loggers.items():
            lg.handlers[:] = h

    try:
        yield
    finally:
        restore()


@contextmanager
def nothing():
    yield


# -------------------------------------------------------------- the operations

class State:
    """The program: a graph, files, figures; made anew by a restart."""

    def __init__(self, case, tmp):
        self.case, self.tmp = case, tmp
        self.others = figures() + windows()
        self.make()

    def make(self):
        from pygsp import graphs
        from pygsp import features, filters, learning, plotting
        from pygsp import reduction, utils
        self.graphs, self.filters = graphs, filters
        self.features = features
        self.learning, self.plotting = learning, plotting
        self.reduction, self.utils = reduction, utils
        spec = self.case["spec"]
        self.G, _ = world.build(spec)
        n = self.G.N
        r = world.nprng("c10", spec["seed"])
        self.G.set_signal(r.normal(size=n), "s")
        self.G.set_signal(r.normal(size=(n, 2)), "x")
        self.G.set_coordinates(r.uniform(size=(n, 2)))
        self.r = r

    def opened(self):
        """How many figures and windows this program has opened."""
        return (len([f for f in figures() if f not in self.others]),
                len([w for w in windows() if w not in self.others]))


def rng(q):
    return world.nprng("c10op", q["seed"])


def graph_digest(G):
    return dict(W=G.W.toarray().astype(float),
                **{"signal " + k: np.asarray(v, float)
                   for k, v in G.signals.items()})


def nx_digest(g):
    nodes = sorted(g.nodes())
    return dict(nodes=np.array(nodes), edges=np.array(sorted(
        (a, b, d["weight"]) for a, b, d in g.edges(data=True))).ravel(),
        signals=np.array([g.nodes[v][k] for v in nodes
                          for k in sorted(g.nodes[v])]))


def gt_digest(g):
    w = g.ep["weight"]
    return dict(n=np.array([g.num_vertices()]), edges=np.array(sorted(
        (int(e.source()), int(e.target()), w[e])
        for e in g.edges())).ravel(),
        signals=np.concatenate([np.array(g.vp[k].a)
                                for k in sorted(g.vp.keys())]))


def user_graph(q):
    r = rng(q)
    n = 5
    return n, [(i, j, float(np.round(r.uniform(.1, 2), 3))) for i in range(n)
               for j in range(i) if r.random() < .6 or j == i - 1]


def path(s, q):
    return os.path.join(s.tmp, f"f{q['path']}.{q['fmt']}")


def do_to_networkx(s, q):
    return nx_digest(s.G.to_networkx())


def do_from_networkx(s, q):
    return graph_digest(s.graphs.Graph.from_networkx(q["_nx"]))


def do_to_graphtool(s, q):
    return gt_digest(s.G.to_graphtool())


def do_from_graphtool(s, q):
    return graph_digest(s.graphs.Graph.from_graphtool(q["_gt"]))


def do_save(s, q):
    s.G.save(path(s, q), backend=q["backend"],
             fmt=q["fmt"] if q["explicit"] else None)
    return None


def do_load(s, q):
    return graph_digest(s.graphs.Graph.load(q["_file"], backend=q["backend"]))


def do_flann(s, q):
    r = rng(q)
    X = r.uniform(size=(int(r.integers(6, 15)), int(r.integers(2, 4))))
    kw = dict(dist_type=q["dist"])
    if q["dist"] == "minkowski":
        kw["order"] = 3
    G = s.graphs.NNGraph(X, k=int(r.integers(2, 5)), use_flann=True, **kw)
    return dict(W=G.W.toarray(), coords=G.coords, sigma=np.array([G.sigma]))


def do_neighbors(s, q):
    r = rng(q)
    G = s.graphs.NNGraph(r.uniform(size=(12, 2)), k=3)
    H = s.graphs.Sensor(N=12, seed=3)
    return dict(graph_digest(G), other=H.W.toarray())


def do_patches(s, q):
    r = rng(q)
    cls = [s.graphs.ImgPatches, s.graphs.Grid2dImgPatches][q["which"] % 2]
    G = cls(r.uniform(size=(4, 4)), k=3) if cls is s.graphs.ImgPatches else \
        cls(r.uniform(size=(4, 4)))
    return graph_digest(G)


def do_simplex(s, q):
    r = rng(q)
    y = r.integers(0, 2, size=s.G.N)
    M = r.random(s.G.N) < .6
    M[0] = True
    x = s.learning.classification_tikhonov_simplex(
        s.G, y, M, tau=.2, maxit=4, verbosity="NONE")
    return dict(x=x)


def do_plain(s, q):
    """What needs no optional library."""
    r = rng(q)
    G = s.G
    x = r.normal(size=G.N)
    out = dict(L=G.L.toarray())
    w = q["which"] % 6
    if w == 0:
        G.compute_fourier_basis()
        out["e"] = G.e
        out["back"] = G.igft(G.gft(x))
    elif w == 1:
        f = s.filters.Heat(s.graphs.Ring(12), 3)
        out["y"] = f.filter(r.normal(size=12))
    elif w == 2:
        out["y"] = s.learning.regression_tikhonov(
            s.graphs.Ring(12), r.normal(size=12), r.random(12) < .5, tau=1)
    elif w == 3:
        H = s.reduction.kron_reduction(s.graphs.Ring(12), np.arange(0, 12, 2))
        out["W"] = H.W.toarray()
        out["R"] = s.utils.resistance_distance(H).toarray()
    elif w == 4:
        out["c"] = np.array([H.N for H in s.graphs.Graph(
            sparse.block_diag([G.W, G.W])).extract_components()] if
            not G.is_directed() else [])
        G.set_coordinates("spring", seed=4, iterations=2)
        out["coords"] = G.coords
    else:
        for name, kw in [("ErdosRenyi", dict(N=12, p=.5, seed=1)),
                         ("BarabasiAlbert", dict(N=9, seed=2)),
                         ("Community", dict(N=12, Nc=3, seed=3)),
                         ("StochasticBlockModel", dict(N=12, seed=3)),
                         ("Logo", {}), ("Torus", dict(Nv=3, Mv=4)),
                         ("SwissRoll", dict(N=12, seed=4)),
                         ("LowStretchTree", dict(k=2))]:
            H = getattr(s.graphs, name)(**kw)
            out[name] = np.array([H.W.sum(), H.n_edges])
    return out


def do_plot(s, q):
    w = q["which"] % 5
    n = s.opened()[0]
    if w == 0:
        fig, ax = s.G.plot()
    elif w == 1:
        fig, ax = s.G.plot(s.G.signals["s"], edges=False)
    elif w == 2:
        fig, ax = s.filters.Heat(s.graphs.Ring(9), 3).plot(n=20)
    elif w == 3:
        H = s.graphs.Torus(3, 4)
        fig, ax = H.plot(np.arange(12.))
    else:
        fig, ax = s.G.plot(ax=q["_ax"])
        n -= 1
    if not PYPLOT.fignum_exists(fig.number):
        raise Violation("no-figure", "the plot is not shown")
    if s.opened()[0] != n + 1:
        raise Violation("other-figures", f"{s.opened()[0]} figures are open "
                        f"instead of {n + 1}")
    return dict(collections=np.array([len(ax.collections), len(ax.lines)]))


def do_windows(s, q):
    w = q["which"] % 3
    n = s.opened()[1]
    if w == 0:
        s.G.plot(backend="pyqtgraph")
    elif w == 1:
        s.G.plot(s.G.signals["s"], backend="pyqtgraph")
    else:
        H = s.graphs.Ring(8)
        s.features.compute_spectrogram(H, M=4)
        H.plot_spectrogram()
    if s.opened()[1] != n + 1:
        raise Violation("other-windows", f"{s.opened()[1]} windows are open "
                        f"instead of {n + 1}")
    return {}


def do_close_all(s, q):
    s.plotting.close_all()
    if s.opened() != (0, 0):
        raise Violation("not-closed", f"{s.opened()} after close_all()")
    return {}


def do_show(s, q):
    [s.plotting.show, s.plotting.close][q["which"] % 2]()
    return {}


OPS = dict(to_networkx=do_to_networkx, from_networkx=do_from_networkx,
           to_graphtool=do_to_graphtool, from_graphtool=do_from_graphtool,
           save=do_save, load=do_load, flann=do_flann,
           neighbors=do_neighbors, patches=do_patches, simplex=do_simplex,
           plain=do_plain, plot=do_plot, windows=do_windows,
           close_all=do_close_all, show=do_show)


def needs(q):
    """Sets of libraries, one of which is enough; () if none is needed."""
    op = q["op"]
    if op.endswith("_networkx"):
        return ["networkx"]
    if op.endswith("_graphtool"):
        return ["graph_tool"]
    if op in ("save", "load"):
        b = q["backend"]
        if b is None:
            return ["networkx", "graph_tool"] if q["fmt"] != "gexf" \
                else ["networkx"]
        return ["graph_tool"] if b == "graph-tool" else ["networkx"]
    return dict(patches=["skimage"], simplex=["pyunlocbox"],
                plot=["matplotlib"], windows=["pyqtgraph"],
                close_all=["matplotlib"], show=["matplotlib"]).get(op, [])


def same(a, b):
    if a is None or b is None:
        return None
    for k in set(a) | set(b):
        if k not in a or k not in b:
            return f"{k} is missing"
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        if x.shape != y.shape:
            return f"{k} has shape {y.shape} instead of {x.shape}"
        if not np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True):
            return f"{k} is {y.ravel()[:6]} instead of {x.ravel()[:6]}"
    return None


def approximate(q, want, res):
    """FLANN may miss neighbours, but not their distances."""
    X, sigma = res["coords"], res["sigma"][0]
    if not np.allclose(X, want["coords"], atol=1e-12):
        return "other coordinates"
    if not .5 < sigma / want["sigma"][0] < 2:
        return f"scale {sigma} instead of {want['sigma'][0]}"
    p = dict(euclidean=2, manhattan=1, minkowski=3)[q["dist"]]
    d = (np.abs(X[:, None] - X[None]) ** p).sum(2) ** (1 / p)
    w = np.exp(-d ** 2 / sigma)
    W = res["W"]
    ok = (W == 0) | np.isclose(W, w, rtol=1e-6) | np.isclose(
        W, w / 2, rtol=1e-6)
    if not ok.all():
        i, j = np.argwhere(~ok)[0]
        return f"weight {W[i, j]} instead of {w[i, j]} at distance {d[i, j]}"
    if (W > 0).sum() < .5 * (want["W"] > 0).sum():
        return "neighbours are missing"
    return None


# ---------------------------------------------------------------- the scenario

def gen(rng, i, tier):
    spec = world.spec_graph(rng, nmin=5, nmax=9, big=0)
    for k in ("scale", "lap"):
        spec.pop(k, None)
    spec["kind"] = rng.choice(["er_w", "path", "er_dir", "er"])
    seq = []
    for _ in range(rng.randint(2, 8)):
        op = rng.choice(list(OPS) + ["save", "load", "save", "load", "flann",
                                     "flann", "plain"])
        q = dict(op=op, seed=rng.getrandbits(20), which=rng.randrange(30))
        if op in ("save", "load"):
            q.update(fmt=rng.choice(["gml", "graphml", "gml", "graphml",
                                     "gexf"]),
                     backend=rng.choice([None, None, None, "networkx",
                                         "graph-tool"]),
                     explicit=rng.random() < .3, path=rng.randrange(2))
            if q["fmt"] == "gexf" and q["backend"] == "graph-tool":
                q["backend"] = "networkx"
        if op == "flann":
            q["dist"] = rng.choice(["euclidean", "manhattan", "minkowski"])
        rel = set(needs(q))
        if op == "flann":
            rel = {"pyflann", "sklearn"}
        x = rng.random()
        if x < .15:
            missing = set()
        elif x < .55:
            missing = {m for m in sorted(rel) if rng.random() < .7}
            missing |= {m for m in LIBS if rng.random() < .15}
        elif x < .7:
            missing = set(LIBS)
        elif x < .8:
            missing = set(LIBS) - rel
        else:
            missing = {m for m in LIBS if rng.random() < .4}
        q["exc"] = rng.choice(sorted(EXCS))
        q["restart"] = rng.random() < .12
        if rel and rng.random() < .2:
            q["flaky"] = [rng.choice(sorted(rel)), rng.randint(1, 3)]
            missing -= {q["flaky"][0]}
            q["restart"] = False
        if op == "flann" and "pyflann" in missing and rng.random() < .25:
            q["dist"] = "max_dist"  # which FLANN does not support
        q["missing"] = sorted(missing)
        q["parts"] = {m: rng.randrange(len(PARTS[m])) for m in sorted(missing)
                      if m in PARTS and rng.random() < .3}
        seq.append(q)
    return dict(spec=spec, ops=seq)


def names_library(e, libs):
    text = str(e).lower()
    # Not the words of the original exception, which says nothing here.
    return any(n in text for m in libs for n in NAMES[m])


def attempt(s, q):
    try:
        return OPS[q["op"]](s, q), None
    except (SimAbort, HarnessError, Violation):
        raise
    except Exception as e:
        return None, e


def baseline(case, q, tmp):
    """The result with all libraries, in a world of its own."""
    d = os.path.join(tmp, "baseline")
    os.makedirs(d, exist_ok=True)
    s = State(case, d)
    q = dict(q)
    try:
        if q["op"] == "flann":
            s.graphs.NNGraph, real = exact_neighbors(s), s.graphs.NNGraph
            try:
                return attempt(s, q)
            finally:
                s.graphs.NNGraph = real
        if q["op"] in ("close_all", "show"):
            return {}, None
        if q["op"] == "plot" or q["op"] == "windows":
            before = figures() + windows()
            if q["op"] == "plot" and q["which"] % 5 == 4:
                q["_ax"] = PYPLOT.figure().add_subplot(111)
            r = attempt(s, q)
            drop(before)
            return r
        return attempt(s, q)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def exact_neighbors(s):
    real = s.graphs.NNGraph

    def NNGraph(X, use_flann=False, **kw):
        return real(X, use_flann=False, **kw)

    return NNGraph


def figures():
    return [m.canvas.figure
            for m in PYPLOT._pylab_helpers.Gcf.get_all_fig_managers()]


def windows():
    if QTWIDGETS.QApplication.instance() is None:
        return []
    return [w for w in QTWIDGETS.QApplication.topLevelWidgets()
            if w.isVisible()]


def drop(before):
    """Close what was opened since then."""
    for f in figures():
        if f not in before:
            PYPLOT.close(f)
    for w in windows():
        if w not in before:
            w.close()


def inputs(case, q, tmp, k):
    """Arguments of the operation, made while every library works."""
    import networkx
    import graph_tool
    if q["op"] == "from_networkx":
        n, edges = user_graph(q)
        q["_nx"] = networkx.Graph()
        q["_nx"].add_nodes_from(range(n))
        q["_nx"].add_weighted_edges_from(edges)
    elif q["op"] == "from_graphtool":
        n, edges = user_graph(q)
        g = graph_tool.Graph(directed=False)
        g.add_vertex(n)
        w = g.new_edge_property("double")
        for a, b, x in edges:
            w[g.add_edge(a, b)] = x
        g.edge_properties["weight"] = w
        q["_gt"] = g
    elif q["op"] == "load":
        # A file saved by a program which had other libraries.
        n, edges = user_graph(q)
        from pygsp import graphs
        W = np.zeros((n, n))
        for a, b, x in edges:
            W[a, b] = W[b, a] = x
        G = graphs.Graph(W)
        G.set_signal(np.round(rng(q).normal(size=n), 3), "s")
        G.set_signal(np.arange(3 * n).reshape(n, 3), "t")
        f = os.path.join(tmp, f"in{k}.{q['fmt']}")
        src = "networkx" if q["which"] % 2 or q["fmt"] == "gexf" else \
            "graph-tool"
        G.save(f, backend=src)
        q["_file"] = f
        q["_want"] = graph_digest(G)


def scenario(case, ctx, tmp):
    s = State(case, tmp)
    hit = 0
    ops = []
    for k, q in enumerate(copy.deepcopy(case["ops"])):
        inputs(case, q, tmp, k)
        want, e = baseline(case, q, tmp)
        if e is None and "_want" in q and same(q["_want"], want):
            raise Violation("other-result", "load: "
                            + same(q["_want"], want), step=k)
        if e is not None:
            raise Violation(f"fails-{type(e).__name__}",
                            f"{q['op']} with all libraries: {e}", step=k)
        hit += step(case, ctx, s, k, q, want, tmp)
        ops.append((q, want))
    # Everything is repaired.
    for k, (q, want) in enumerate(ops):
        if q.get("dist") == "max_dist":
            continue
        q = dict(q, missing=[], restart=False)
        q.pop("flaky", None)
        step(case, ctx, s, k + 100, q, want, tmp)
    s.plotting.close_all()
    if s.opened() != (0, 0):
        raise Violation("not-closed", f"{s.opened()} after close_all()")
    ctx.trivial = not hit


def step(case, ctx, s, k, q, want, tmp):
    exc = EXCS[q["exc"]]
    targets = []
    for m in q["missing"]:
        targets += PARTS[m][q["parts"][m]] if m in q["parts"] else LIBS[m]
    flakes = []
    before = figures() + windows()
    if q["op"] == "plot" and q["which"] % 5 == 4:
        q["_ax"] = PYPLOT.figure().add_subplot(111)
        s.others.append(q["_ax"].figure)
    f = path(s, q) if q["op"] == "save" else None
    if q["restart"]:
        # Another program, with its own graphs and figures.
        with seams.broken_imports(targets, Neutral(exc)) as blocker, \
                restarted():
            try:
                s = State(case, tmp)
            except Exception as e:
                raise Violation("import-fails", "the package cannot be "
                                f"imported or used: {type(e).__name__}: {e}",
                                missing=q["missing"], step=k)
            try:
                res, e, first = perform(s, q, f)
            finally:
                after = judge_state(s)
            judge(ctx, s, k, q, want, res, e, first, after, f, [])
        drop(before)
        hits = blocker.hits
    else:
        fl = flaky(q["flaky"][0], q["flaky"][1], exc, flakes) \
            if "flaky" in q else nothing()
        with seams.broken_imports(targets, Neutral(exc)) as blocker, fl:
            res, e, first = perform(s, q, f)
            after = judge_state(s)
        hits = blocker.hits
        judge(ctx, s, k, q, want, res, e, first, after, f, flakes)
    check_pending()
    if q.get("_ax") is not None:
        PYPLOT.close(q["_ax"].figure)
    if hits:
        ctx.fault(f"{q['exc']} until repaired", )
    for m in flakes:
        ctx.fault(f"{q['exc']} once")
    ctx.state((q["op"], q["missing"], bool(q["parts"]), q["exc"],
               q["restart"], q.get("flaky"), type(e).__name__))
    ctx.log(k, q["op"], q["missing"], q["restart"], type(e).__name__, hits,
            flakes)
    return hits + len(flakes)


class Neutral:
    """Raises the exception without the name of the library."""

    def __init__(self, exc):
        self.exc = exc

    def __call__(self, message):
        return self.exc("simulated failure")


def content(f):
    if f is None or not os.path.exists(f):
        return None
    with open(f, "rb") as fd:
        return fd.read()


def perform(s, q, f):
    before = (snap.snap(s.G), content(f), s.opened())
    G = s.G
    if q["op"] == "plain":
        # changes coordinates and caches, on purpose
        s.G = copy.deepcopy(G)
    try:
        res, e = attempt(s, q)
    finally:
        s.G = G
    return res, e, before


def judge_state(s):
    return snap.snap(s.G), s.opened()


def judge(ctx, s, k, q, want, res, e, before, after, f, flakes):
    d = dict(step=k, op=q["op"], missing=q["missing"], flaky=q.get("flaky"),
             exc=q["exc"], restart=q["restart"])
    broken = set(q["missing"]) | set(flakes)
    chain = needs(q)
    ctx.probe("operations")
    if after[0] != before[0]:
        raise Violation("half-done", f"{q['op']} changed the graph: "
                        + snap.where(before[0], after[0]), **d)
    if e is not None:
        ctx.probe("refused")
        failed = [m for m in chain if m in broken]
        if q["op"] in ("save", "load") and q["fmt"] == "gexf" and \
                q["backend"] is None and "networkx" in broken:
            # The next library does not know this format, and says so.
            failed = ["networkx", "graph_tool"]
            if "graph_tool" not in broken:
                return
        if not failed or (len(failed) < len(chain)):
            raise Violation(
                f"fails-{type(e).__name__}", f"{q['op']} fails although "
                f"{chain or 'no optional library'} would do: "
                f"{type(e).__name__}: {str(e)[:300]}", **d)
        if not isinstance(e, ImportError):
            raise Violation(
                f"obscure-{type(e).__name__}", f"{q['op']} without {failed}: "
                f"{type(e).__name__}: {str(e)[:300]}", **d)
        if not names_library(e, failed):
            raise Violation("unnamed", f"{q['op']} without {failed}: "
                            f"{str(e)[:300]}", **d)
        if f is not None and content(f) != before[1]:
            raise Violation("half-done", "a failed save changed the file",
                            **d)
        # If the library disappears while plotting, a figure can be left: it
        # must be one that close_all() closes.
        if q["op"] != "close_all" and not flakes and after[1] != before[2]:
            raise Violation("half-done", f"{q['op']} failed and left "
                            f"{after[1]} figures instead of {before[2]}", **d)
        return
    ctx.probe("results compared")
    if q["op"] == "flann" and "pyflann" not in broken:
        bad = approximate(q, want, res)
    else:
        bad = same(want, res)
    if bad:
        raise Violation("other-result", f"{q['op']}: {bad}", **d)
    if q["op"] == "save":
        check_file(s, q, f, broken, d)


def check_file(s, q, f, broken, d):
    """The file is what the first library that works writes."""
    backend = q["backend"]
    if backend is None:
        backend = "networkx" if "networkx" not in broken else "graph-tool"
    g = f + ".check." + q["fmt"]
    # All libraries can be imported only outside of the fault, so the file
    # is compared with one written by the library itself.
    d["compare"] = backend
    PENDING.append((s.G, f, g, backend, q["fmt"], d, content(f)))


PENDING = []


def check_pending():
    while PENDING:
        G, f, g, backend, fmt, d, got = PENDING.pop()
        G.save(g, backend=backend, fmt=fmt)
        want = content(g)
        os.unlink(g)
        if got != want:
            raise Violation("other-file", f"save wrote another file than "
                            f"{backend}: {got[:200]!r} instead of "
                            f"{want[:200]!r}", **d)


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-c10-")
    del PENDING[:]
    sim = Sim(budget=3_000_000)
    try:
        sim.run_inline(lambda th: scenario(case, ctx, tmp))
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        drop([])
        shutil.rmtree(tmp, ignore_errors=True)
        ctx.steps += sim.total
